import { modelTool, sameResult, sseText, startCall, stopFn } from '../lib/chat.mjs'
import { TOOLS } from '../lib/families.mjs'
import { finished, ITEMS, respTurn } from '../lib/resp.mjs'
import { canon, sequences } from '../lib/util.mjs'

const noEmpty = e => e.delta !== ''
const FINISH = { failed: 'error', incomplete: 'length' }
// what the server does after the last event of a response it ends the run with
const TAILS = { extra: [{ item_id: 'x', type: 'response.some_future.event' }, { response: { id: 'late', output: [] }, type: 'response.in_progress' }], none: [] }

/** everything a run over these responses must deliver */
export const expected = (s) => {
  const turns = s.turns.map(respTurn)
  const stop = stopFn('stop' in s ? s.stop : { k: 'never' })
  const out = { events: [], full: [], reasoning: [], results: [], steps: [], text: [], turns }
  let total
  for (const [n, t] of turns.entries()) {
    const spec = s.turns[n]
    const take = ([e, lib, x]) => { out.full.push(e); out.events.push(...lib); if (x?.text) out.text.push(x.text); if (x?.reasoning) out.reasoning.push(x.reasoning) }
    const body = spec.cutAt !== undefined ? t.body.slice(0, spec.cutAt) : t.body
    body.forEach(take)
    if (spec.cutAt !== undefined) break // the server hangs up without ending the response
    const calls = finished(t).filter(x => x.type === 'function_call').map(x => ({ args: x.arguments, id: x.call_id, name: x.name }))
    const step = { finishReason: FINISH[t.status] ?? (t.calls.length ? 'tool-calls' : 'stop'), text: t.text, toolCalls: calls.map(c => ({ args: c.args, toolCallId: c.id, toolCallType: 'function', toolName: c.name })), toolResults: [], usage: t.usage }
    let go = false
    if (t.status === 'completed') {
      const halt = stop ? stop({ input: [], step, steps: [...out.steps, step] }) : true
      if (!halt && calls.length) {
        go = true
        const rs = calls.map(c => modelTool(c, TOOLS, s.pre, s.post, 'resp'))
        step.toolCalls = rs.map(r => r.call); step.toolResults = rs.map(r => r.result)
        for (const r of step.toolResults) out.events.push({ ...r, type: 'tool-result.done' })
      }
    }
    if (t.usage) total = total ? { inputTokens: total.inputTokens + t.usage.inputTokens, outputTokens: total.outputTokens + t.usage.outputTokens, totalTokens: total.totalTokens + t.usage.totalTokens } : { ...t.usage }
    out.steps.push(step)
    out.full.push(t.end); out.events.push(t.endEvent)
    if (!go) { out.full.push(...TAILS[s.tail ?? 'none']); break }
  }
  out.total = total; out.usage = out.steps.at(-1)?.usage
  return out
}

export default {
  id: 'C22',
  dev: { quick: 1, thorough: 3 },
  bounds: {
    quick: '22 kinds of output items: every list of up to 2, up to 3 of 7 kinds, every pair of 6-kind lists in a tool loop; completed, failed and incomplete responses with and without usage; delta splits 1-3, interleaved items, chatter and unknown events, server hang-up after every event, events after the end; stop conditions, hooks, 3 reading patterns; arrival and completion orders within 1 deviation',
    thorough: 'lists of up to 3 of 22 kinds; 3 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    const ks = Object.keys(ITEMS)
    const core = ['reason', 'msg', 'callA', 'callB', 'refusal', 'rawReason', 'search']
    const fin = { items: ['reason', 'msg'], split: 2 }
    yield { turns: [{ items: [] }] }
    for (const items of sequences(ks, T ? 3 : 2, 1)) yield { dev: items.length > 2 ? 0 : 1, turns: [{ chatter: items.length === 2, items, split: items.length }, fin] }
    for (const items of sequences(core, 3, 3)) yield { dev: T ? 1 : 0, turns: [{ items, split: 3 }, fin] }
    for (const items of sequences(core, 3, 2)) yield { dev: 0, turns: [{ interleave: true, items, split: 2 }, fin] }
    for (const ids of ['perResponse', 'same', 'none']) for (const a of sequences(core, 2, 1)) for (const b of core) yield { dev: 0, turns: [{ ids, interleave: a.length > 1 && a[0] !== a[1], items: [...a, 'callA'], split: 2 }, { ids, items: [b], split: 2 }] }
    for (const a of sequences(core, 1, 1)) for (const b of sequences(core, 2, 1)) yield { turns: [{ items: [...a, 'callA'], split: 2 }, { items: [...b, 'callP'] }, fin] }
    for (const status of ['completed', 'failed', 'incomplete']) for (const usage of [undefined, null, [0, 0, 0]]) for (const items of sequences(core, 2)) for (const tail of ['none', 'extra']) yield { dev: 0, tail, turns: [{ items, status, usage }, fin] }
    for (const status of ['failed', 'incomplete']) for (const usage of [undefined, null]) for (const items of sequences(['msg', 'callA', 'reason'], 2)) yield { turns: [{ items: ['callA'] }, { items, status, usage }] }
    // the server hangs up after every event
    for (const items of [['reason', 'msg'], ['callA', 'callB'], ['msg', 'callA']]) for (const pre of [[], [{ items: ['callP'] }]]) {
      const n = respTurn({ items, split: 2 }, pre.length).body.length
      for (let cutAt = 0; cutAt <= n; cutAt++) yield { done: cutAt % 2 === 0, turns: [...pre, { cutAt, items, split: 2 }] }
    }
    for (const stop of [undefined, { k: 'count', n: 1 }, { k: 'count', n: 2 }, { k: 'tool', v: 'b' }, { k: 'finish', v: 'tool-calls' }]) for (const a of core) for (const b of ['callA', 'callB']) yield { dev: 0, stop, turns: [{ items: [a, b] }, { items: ['callB'] }, fin] }
    for (const pre of [undefined, 'args', 'result', 'strresult', 'throw', 'name']) for (const post of [undefined, 'replace', 'obj', 'throw']) yield { post, pre, turns: [{ items: ['callA', 'reason', 'callB'], split: 2 }, fin] }
    for (const read of ['text', 'events', 'full', 'none']) for (const a of core) yield { read, turns: [{ items: [a, 'callA', 'callB'], split: 2 }, fin] }
    for (const a of core) for (const b of core) yield { dev: T ? 2 : 1, slow: true, turns: [{ items: [a, b], split: 2 }, { items: ['msg'], split: 3 }] }
    // an error event fails everything, after everything before it
    for (const items of [['reason', 'msg'], ['callA', 'callB']]) for (const pre of [[], [{ items: ['callP'] }]]) for (let cutAt = 1; cutAt <= 9; cutAt += 2) yield { error: true, turns: [...pre, { cutAt, items, split: 2 }] }
  },
  async execute(env, s) {
    const x = expected(s)
    let n = 0
    const server = () => {
      const i = n++
      const t = x.turns[i]; const spec = s.turns[i] ?? {}
      const list = t ? (spec.cutAt !== undefined ? t.body.slice(0, spec.cutAt) : t.body).map(([e]) => e) : []
      if (t && spec.cutAt === undefined) list.push(t.end, ...(TAILS[s.tail ?? 'none']))
      if (s.error && spec.cutAt !== undefined) list.push({ error: { code: 'x', message: 'server said no', type: 'server_error' }, sequence_number: 9, type: 'error' })
      const text = list.length || s.done ? sseText(list, { done: s.done ?? true }) : ''
      return { auto: !s.slow, chunks: s.slow ? text.split(/(?<=\n\n)/) : [text], headers: { 'content-type': 'text/event-stream' } }
    }
    const h = startCall(env, { messages: [{ content: 'hi', role: 'user' }], post: s.post, pre: s.pre, stop: 'stop' in s ? s.stop : { k: 'never' }, tools: TOOLS, turns: [] }, 'resp', { noConsume: !!s.read, server })
    if (s.read) for (const [k, st] of [['text', 'textStream'], ['full', 'fullStream'], ['eventStream', 'eventStream']]) if (s.read === k || (s.read === 'events' && k === 'eventStream')) h[k] = env.collect(h.result[st], k, y => structuredClone(y))
    if (s.slow) {
      // promptness: when the next event is still to come, everything received so far has been delivered
      const orig = env.ctx.state.bind(env.ctx)
      env.ctx.state = (hash, enabled) => {
        for (const a of enabled) {
          const b = /^body#(\d+)\.(\d+)$/.exec(a.label)
          if (!b || h.full === undefined) continue
          const before = x.turns.slice(0, +b[1]).reduce((k, t) => k + t.body.length + 1, 0)
          // the last event of a step with calls waits for their results
          const due = before + Math.min(+b[2], x.turns[+b[1]].body.length)
          env.check(h.full.items.length >= due, `${due} events have arrived but ${h.full.items.length} were delivered`)
        }
        return orig(hash, enabled)
      }
    }
    await env.run()
    for (const k of ['transcript', 'steps', 'usage', 'totalUsage']) {
      env.check(h[k].settled, `the ${k} promise never settles`)
      env.check(h[k].ok === !s.error, `the ${k} promise ${h[k].ok ? 'resolves although the server reported an error' : `fails with ${canon(h[k].error)}`}`)
      if (s.error) env.check(h[k].error instanceof Error && h[k].error.code === 'remote_api_error', `the ${k} promise fails with ${canon(h[k].error)}`)
    }
    const same = (got, want, what) => {
      const g = got.filter(noEmpty)
      const k = want.findIndex((w, i) => w.type === 'tool-result.done' ? g[i]?.type !== w.type || !sameResult({ ...g[i], type: undefined }, { ...w, type: undefined }) : canon(g[i]) !== canon(w))
      env.check(k < 0, `${what} ${k}: expected ${canon(want[k])}, got ${canon(g[k])}`)
      env.check(g.length === want.length, `${what}: ${g.length - want.length} more than expected: ${canon(g.slice(want.length))}`)
    }
    const wantEvents = x.events.filter(noEmpty)
    same(h.obs.events, wantEvents, 'event callback')
    const streams = { events: [h.eventStream, g => same(g, wantEvents, 'event stream')], full: [h.full, g => same(g.map(e => e), x.full.filter(noEmpty).map(e => JSON.parse(JSON.stringify(e))), 'full stream')], reasoning: [h.reasoning, g => env.expect(g.filter(d => d !== ''), x.reasoning, 'reasoning stream')], text: [h.text, g => env.expect(g.filter(d => d !== ''), x.text, 'text stream')] }
    for (const [k, [r, check]] of Object.entries(streams)) {
      if (!r) continue
      env.check(s.error ? r.failed : r.done, s.error ? `the ${k} stream ${r.done ? 'ends normally' : 'never ends'} although the server reported an error` : r.failed ? `the ${k} stream fails with ${canon(r.error)}` : `the ${k} stream never ends`)
      if (!s.error) check(r.items)
    }
    if (s.error) return canon(h.obs.events.length)
    env.check(h.steps.value.length === x.steps.length, `steps should be ${canon(x.steps)}, are ${canon(h.steps.value)}`)
    x.steps.forEach((w, i) => {
      const { toolResults, ...g } = h.steps.value[i]; const { toolResults: wr, ...ws } = w
      env.expect(g, ws, `step ${i}`)
      env.check(toolResults.length === wr.length && wr.every((r, k) => sameResult(toolResults[k], r)), `results of step ${i} should be ${canon(wr)}, are ${canon(toolResults)}`)
    })
    env.expect(h.usage.value, x.usage, 'usage'); env.expect(h.totalUsage.value, x.total, 'total usage')
    env.check(h.obs.stepsSeen.length === x.steps.length && h.obs.finish.length === 1, `${h.obs.stepsSeen.length} step callbacks and ${h.obs.finish.length} finish callbacks for ${x.steps.length} steps`)
    return canon([h.obs.events, h.steps.value])
  },
}
