import { chunkOf, outcome, sameResult, simulate, snapshot, startCall, streamChunks } from '../lib/chat.mjs'
import { FINAL_TURNS, longRun, MESSAGES, TOOL_TURNS, TOOLS } from '../lib/families.mjs'
import { canon, sequences, subsets } from '../lib/util.mjs'
import { deltaSequences, manyCalls, turnOf } from './C02.mjs'

/** start and delta events a step's chunks must give rise to, in arrival order, empty deltas left out */
export const expectedDeltas = (chunks) => {
  const out = []
  let text = ''; let reasoning = ''; const seen = new Set()
  for (const c of chunks) {
    const d = c.choices?.[0]?.delta
    if (!d) continue
    const group = []
    for (const r of ['reasoning', 'reasoning_content']) if (d[r]) { reasoning += d[r]; group.push({ delta: d[r], type: 'reasoning.delta' }) }
    for (const k of ['content', 'refusal']) if (d[k]) { text += d[k]; group.push({ delta: d[k], type: 'text.delta' }) }
    for (const t of d.tool_calls ?? []) {
      if (!seen.has(t.index)) { seen.add(t.index); group.push({ toolCallId: t.id, toolName: t.function.name, type: 'tool-call.start' }) }
      if (t.function.arguments) group.push({ delta: t.function.arguments, type: 'tool-call.delta' })
    }
    out.push(...group)
  }
  return { list: out, reasoning, text }
}

/** checks the events of one streaming run against the model; returns nothing, fails the execution otherwise */
export const checkEvents = (env, events, steps, chunksPerStep) => {
  let p = 0
  steps.forEach((step, n) => {
    const end = events.findIndex((e, i) => i >= p && e.type === 'step.done')
    env.check(end >= 0, `step ${n}: no step.done event`)
    const ev = events.slice(p, end + 1)
    p = end + 1
    env.check(ev[0]?.type === 'step.start', `step ${n} does not begin with step.start but with ${canon(ev[0])}`)
    env.check(ev.filter(e => e.type === 'step.start').length === 1, `step ${n}: more than one step.start`)
    env.expect(ev.at(-1).usage, step.usage, `step ${n}: usage of step.done`)
    const x = expectedDeltas(chunksPerStep[n])
    const got = ev.filter(e => /(?:\.delta|tool-call\.start)$/.test(e.type) && e.delta !== '')
    env.expect(got, x.list, `step ${n}: start and delta events`)
    for (const kind of ['text', 'reasoning']) {
      const first = ev.findIndex(e => e.type === `${kind}.delta`)
      const last = ev.findLastIndex(e => e.type === `${kind}.delta`)
      const st = ev.flatMap((e, i) => e.type === `${kind}.start` ? [i] : [])
      const dn = ev.flatMap((e, i) => e.type === `${kind}.done` ? [i] : [])
      if (x[kind] !== '' || first >= 0) {
        env.check(st.length === 1 && st[0] < first, `step ${n}: ${kind}.start must come once, before the first delta (at ${st}, first delta ${first})`)
        env.check(dn.length === 1 && dn[0] > last, `step ${n}: ${kind}.done must come once, after the last delta (at ${dn}, last delta ${last})`)
        env.expect(ev[dn[0]].content, x[kind], `step ${n}: content of ${kind}.done`)
      }
      else env.check(st.length === dn.length && st.length <= 1, `step ${n}: ${kind} events without any ${kind}`)
    }
    // completed calls, in call order, after their deltas and before any result
    const calls = ev.filter(e => e.type === 'tool-call.done').map(({ type, ...c }) => c)
    env.expect(calls, step.modelCalls, `step ${n}: tool-call.done events`)
    const lastDelta = ev.findLastIndex(e => e.type === 'tool-call.delta' || e.type === 'tool-call.start')
    const firstDone = ev.findIndex(e => e.type === 'tool-call.done'); const lastDone = ev.findLastIndex(e => e.type === 'tool-call.done')
    const firstRes = ev.findIndex(e => e.type === 'tool-result.done')
    if (firstDone >= 0) env.check(firstDone > lastDelta, `step ${n}: tool-call.done before the last delta`)
    if (firstRes >= 0) env.check(firstRes > lastDone, `step ${n}: tool-result.done before tool-call.done`)
    const res = ev.filter(e => e.type === 'tool-result.done').map(({ type, ...c }) => c)
    env.check(res.length === step.toolResults.length && step.toolResults.every((w, i) => sameResult(res[i], w)), `step ${n}: tool results should be ${canon(step.toolResults)}, were ${canon(res)}`)
    const known = /^(?:step\.(?:start|done)|(?:text|reasoning)\.(?:start|delta|done)|tool-call\.(?:start|delta|done)|tool-result\.done)$/
    for (const e of ev) env.check(known.test(e.type), `unexpected event ${canon(e)}`)
  })
  env.check(p === events.length, `events after the last step: ${canon(events.slice(p))}`)
}

// pieces that look like nothing, or like something they are not
const PIECES = [' ', '\n', '\r\n', '\t', '\u00a0', '\ufeff', '\u0000', '0', 'null', 'false', '{}', '""', '[DONE]', '\uD83D', '\u0301', 'a', 'data: x']
const FIELDS = ['content', 'refusal', 'reasoning', 'reasoning_content', 'args']
const pieceOf = (field, p, i) => chunkOf(field === 'args' ? { tool_calls: [{ function: { arguments: p, ...(i === 0 ? { name: 'a' } : {}) }, index: 0, ...(i === 0 ? { id: 'c0', type: 'function' } : {}) }] } : { [field]: p })
const HANDLES = { eventStream: 'eventStream', full: 'fullStream', reasoning: 'reasoningTextStream', text: 'textStream' }

export default {
  id: 'C10',
  traced: { only: (s, tier) => s.turns.every(t => (t.chunks?.length ?? 0) <= (tier === 'quick' ? 3 : 4) || t.chunks.length > 20), quick: 0, thorough: 1 },
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'all legal delta sequences up to length 4 over the 19-symbol delta alphabet and up to length 3 over 30 symbols, 17 odd pieces as the first, middle, last and only pieces of 5 kinds of deltas, steps of 11, 12 and 25 calls, runs of 13 steps, 2-turn histories over 7 turn shapes with splits 1-3, early stop, hooks; every subset of the streams cancelled at once, in the middle or never read; completion orders within 1 deviation',
    thorough: 'delta sequences up to length 5, 3-turn histories, 2 deviations',
  },
  * scenarios(tier) {
    const base = { messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS }
    for (const f of Object.keys(FINAL_TURNS)) for (const split of [1, 2, 5]) yield { ...base, turns: [{ ...FINAL_TURNS[f], split }] }
    for (const seq of sequences(Object.keys(TOOL_TURNS), tier === 'quick' ? 2 : 3, 1)) for (const split of [1, 2, 3]) {
      const turns = [...seq.map((k, i) => ({ ...TOOL_TURNS[k](i), split })), FINAL_TURNS.reasoning]
      yield { ...base, turns }
      if (split === 2) yield { ...base, stop: { k: 'count', n: seq.length }, turns }
      if (split === 2 && seq.length === 1) for (const pre of ['args', 'result', 'strresult', 'throw', 'name']) for (const post of [undefined, 'obj', 'throw']) yield { ...base, post, pre, turns }
    }
    for (const from of [0, 1, 2, 3, 4, 5, 6]) for (const split of [2, 9]) yield { ...base, dev: 0, turns: longRun(12, from, { split }) }
    for (const field of FIELDS) for (const p of PIECES) for (const ps of [[p], [p, 'x'], ['x', p], [p, p], ['x', p, p, 'y'], [p, 'x', p], ['', p]]) yield { ...base, dev: 0, turns: [{ chunks: [...ps.map((q, i) => pieceOf(field, q, i)), chunkOf({}, { finish_reason: 'stop' })] }, { text: 'done' }] }
    for (const chunks of manyCalls()) yield { ...base, dev: 0, turns: [{ chunks }, { text: 'done' }] }
    for (const seq of deltaSequences(tier === 'quick' ? 4 : 5)) yield { ...base, dev: 0, turns: [turnOf(seq, true), { text: 'done' }] }
    // the callback and the streams that are read see it all, whichever of the others were given up
    for (const seq of sequences(Object.keys(TOOL_TURNS), 1, 0)) for (const give of subsets(Object.keys(HANDLES))) if (give.length) for (const how of ['at once', 'in the middle', 'unread']) yield { ...base, dev: 0, give, how, turns: [...seq.map((k, i) => ({ ...TOOL_TURNS[k](i), split: 2 })), FINAL_TURNS.reasoning] }
    for (const seq of deltaSequences(3)) if (seq.length < 3) yield { ...base, dev: 0, slow: true, turns: [TOOL_TURNS.two(0), turnOf(seq, true), { text: 'done', reasoning: 'r' }] }
  },
  async execute(env, s) {
    const m = simulate(s, 'stream')
    const stops = m.stops.map(x => x.step.toolCalls)
    let h
    if (s.slow) {
      // promptness: when the next piece of the body is still to come, everything received so far has been delivered
      const parts = s.turns.map(streamChunks)
      const orig = env.ctx.state.bind(env.ctx)
      env.ctx.state = (hash, enabled) => {
        for (const a of enabled) {
          const b = a.label.match(/^body#(\d+)\.(\d+)$/)
          if (!b || !h?.full) continue
          const seen = [...parts.slice(0, +b[1]).flat(), ...parts[+b[1]].slice(0, +b[2])]
          env.check(h.full.items.length === seen.length, `${seen.length} chunks have arrived but ${h.full.items.length} were delivered`)
          env.expect(h.text.items.join(''), seen.flatMap(c => { const d = c.choices?.[0]?.delta; return d ? [d.content ?? '', d.refusal ?? ''] : [] }).join(''), 'text delivered so far')
        }
        return orig(hash, enabled)
      }
    }
    let seen = 0
    h = startCall(env, s, 'stream', {
      ...(s.slow || s.give ? { autoBody: !s.slow, chunking: t => t.split(/(?<=\n\n)/) } : {}),
      noConsume: s.give != null,
      onEvent: () => { if (s.how === 'in the middle' && seen++ === 2) for (const k of s.give) h.result[HANDLES[k]].cancel() },
    })
    if (s.give) for (const k of Object.keys(HANDLES)) if (!s.give.includes(k)) h[k] = env.collect(h.result[HANDLES[k]], k, snapshot); else if (s.how === 'at once') h.result[HANDLES[k]].cancel()
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    const chunks = s.turns.slice(0, m.steps.length).map(streamChunks)
    for (const k of Object.keys(HANDLES)) if (!h[k]) h[k] = { skip: true }
    for (const k of Object.keys(HANDLES)) env.check(h[k].skip || h[k].done && !h[k].failed, `${k} stream does not end normally`)
    env.check(h.eventStream.skip || canon(h.eventStream.items) === canon(h.obs.events), `event stream and onEvent differ: ${canon(h.eventStream.items)} vs ${canon(h.obs.events)}`)
    checkEvents(env, h.obs.events, m.steps.map((x, i) => ({ ...x, modelCalls: stops[i] })), chunks)
    if (!h.full.skip) env.expect(h.full.items, chunks.flat().map(c => JSON.parse(JSON.stringify(c))), 'raw chunks')
    const exp = chunks.map(expectedDeltas)
    if (!h.text.skip) env.expect(h.text.items.filter(x => x !== ''), exp.flatMap(x => x.list.filter(e => e.type === 'text.delta').map(e => e.delta)), 'text stream')
    if (!h.reasoning.skip) env.expect(h.reasoning.items.filter(x => x !== ''), exp.flatMap(x => x.list.filter(e => e.type === 'reasoning.delta').map(e => e.delta)), 'reasoning stream')
    return canon(h.obs.events)
  },
}
