import { outcome, sameResult, sameStep, sameTranscript, simulate, snapshot, startCall } from '../lib/chat.mjs'
import { FINAL_TURNS, MESSAGES, ODD_CALLS, TOOL_TURNS, TOOLS, withCalls } from '../lib/families.mjs'
import { schema } from '../lib/kinds.mjs'
import { canon, product, sequences } from '../lib/util.mjs'

// what a model may say about its thoughts, and how a last answer may look besides
const THOUGHTS = { both: { extra: { reasoning: 'same', reasoning_content: 'same' }, reasoning: 'same' }, content: { reasoning: 'since ü😀' }, empty: { reasoning: '' }, emptyField: { reasoning: '', rf: 'reasoning' }, field: { reasoning: 'because', rf: 'reasoning' }, none: {}, nulls: { extra: { reasoning: null, reasoning_content: null } }, nullOther: { extra: { reasoning: null }, reasoning: 'still' }, nullOther2: { extra: { reasoning_content: null }, reasoning: 'yet', rf: 'reasoning' } }
const LAST = {
  ...FINAL_TURNS,
  absent: { usage: [1, 2, 3] }, nul: { text: null, usage: [1, 2, 3] }, odd: { finish: 'something', text: 'x', usage: [0, 0, 0] }, filter: { finish: 'content_filter', text: '', usage: [1, 2, 3] },
  parts: { parts: [{ text: 'one', type: 'text' }, { refusal: 'no', type: 'refusal' }, { text: 'two', type: 'text' }], usage: [1, 2, 3] }, noParts: { parts: [], usage: [1, 2, 3] }, refusal: { refusal: 'will not', text: null, usage: [1, 2, 3] },
  choices: { moreChoices: [{ finish_reason: 'length', index: 1, message: { content: 'other', reasoning: 'other', role: 'assistant', tool_calls: [{ function: { arguments: '{}', name: 'a' }, id: 'z', type: 'function' }] } }], text: 'first', usage: [1, 2, 3] },
  total: { text: 'x', usage: [5, 6, 100] }, annotated: { extra: { annotations: [], audio: null, refusal: null, x: { y: 1 } }, text: 'y', usage: [1, 2, 3] }, lengthCalls: { calls: [{ args: '{"x":"1"}', id: 'z', name: 'a' }], finish: 'length', text: 'calls', usage: [1, 2, 3] },
}
const GEN_ONLY = ['parts', 'noParts', 'refusal', 'choices', 'absent', 'nul', 'annotated']
const STOPS = [undefined, { k: 'always' }, { k: 'count', n: 2 }, { k: 'tool', v: 'b' }, { k: 'never' }]
const APIS = ['gen', 'tgen', 'genobj', 'genarr', 'stream', 'tstream', 'resp']
const OBJECT = { genarr: 'array', genobj: 'object' }
const proto0 = api => ({ genarr: 'gen', genobj: 'gen', tgen: 'gen', tstream: 'stream' })[api] ?? api
const no = x => x === null ? undefined : x

export default {
  id: 'C43',
  bundle: 'core',
  bundles: ['telemetry'],
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'seven runs (generateText and streamText plain and traced, generateObject in both modes, Responses): all histories of up to 2 tool turns of 7 shapes x 15 last answers x 5 stop conditions; 8 ways of telling thoughts in each of 2 answers; 40 hook pairs; usage told by any of 3 answers; calls without a type; runs of 12 steps; aborts while tools run; completion orders within 1 deviation',
    thorough: 'up to 3 tool turns; 2 deviations',
  },
  * scenarios(tier) {
    // only texts that are JSON make objects
    const doc = (t, api) => ({ ...t, text: api === 'genarr' ? '{"elements":[1,{"n":2}]}' : '{"n":1}' })
    for (const s of this.runs(tier)) yield OBJECT[s.api] ? { ...s, turns: [...s.turns, FINAL_TURNS.text].map(t => doc(t, s.api)) } : s
  },
  * runs(tier) {
    const T = Object.keys(TOOL_TURNS)
    const deep = tier === 'thorough'
    const fits = (api, f) => api === 'gen' || api === 'tgen' || !GEN_ONLY.includes(f)
    for (const api of APIS) {
      const mk = (seq, last, extra) => ({ api, messages: MESSAGES.history, stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), last], ...extra })
      for (const seq of sequences(T, deep ? 3 : 2)) for (const f of Object.keys(LAST)) if (fits(api, f)) for (const stop of STOPS) if (seq.length < 2 || stop?.k !== 'count') yield mk(seq, LAST[f], { dev: seq.length > 1 ? 0 : undefined, stop })
      for (const a of Object.keys(THOUGHTS)) for (const b of Object.keys(THOUGHTS)) if (fits(api, 'annotated') || !('extra' in THOUGHTS[a] || 'extra' in THOUGHTS[b])) for (const k of T) { const s = mk([k], { ...FINAL_TURNS.text, ...THOUGHTS[b] }); const { reasoning, rf, ...t } = s.turns[0]; yield { ...s, dev: 0, turns: [{ ...t, ...THOUGHTS[a] }, s.turns[1]] } }
      for (const k of T) for (const [pre, post] of product([[undefined, 'void', 'args', 'badargs', 'name', 'noname', 'result', 'strresult', 'throw'], [undefined, 'replace', 'obj', 'throw', 'fresh']])) for (const stop of [{ k: 'never' }, { k: 'count', n: 1 }]) yield mk([k], FINAL_TURNS.reasoning, { dev: 0, post, pre, stop })
      for (const k of T) for (const o of Object.keys(ODD_CALLS)) for (const stop of [{ k: 'never' }, { k: 'count', n: 1 }]) { const s = mk([k], FINAL_TURNS.text, { stop }); yield { ...s, dev: 0, odd: true, turns: [withCalls(s.turns[0], ODD_CALLS[o]), s.turns[1]] } }
      // which of the answers tell a usage
      if (!OBJECT[api] && proto0(api) !== 'gen') for (const k of T) for (const mask of product(Array.from({ length: 3 }, () => [true, false]))) for (const stop of [{ k: 'never' }, { k: 'count', n: 2 }, { k: 'count', n: 1 }]) { const s = mk([k, k], FINAL_TURNS.text, { stop }); yield { ...s, dev: 0, turns: s.turns.map((t, i) => mask[i] ? t : { ...t, usage: undefined }) } }
      for (const f of ['text', 'reasoning', 'length']) yield mk(Array.from({ length: 12 }, (_, i) => T[i % 7]), LAST[f], { dev: 0 })
      // the text of an answer is text also when the run ends with it and its calls
      for (const k of T) for (const th of ['none', 'content', 'field']) for (const n of [1, 2]) { const s = mk([k, k], FINAL_TURNS.text, { stop: { k: 'count', n } }); yield { ...s, dev: 0, turns: s.turns.map(t => ({ ...t, ...THOUGHTS[th], text: '{"n":2}' })) } }
      for (const k of T) for (const text of ['{"n":1}', undefined]) for (const pre of [undefined, 'args', 'result', 'throw']) yield { ...mk([k, k], FINAL_TURNS.text, { abort: true, pre }), turns: [{ ...TOOL_TURNS[k](0), ...(text ? { text } : {}) }, { ...FINAL_TURNS.text, ...(text ? { text } : {}) }] }
    }
  },
  async execute(env, s) {
    const proto = proto0(s.api)
    const lib = s.api.startsWith('t') ? env.instantiate(env.factories.telemetry).telemetry : OBJECT[s.api] ? { generateText: o => env.lib.generateObject(o) } : env.lib
    const ctl = s.abort ? new AbortController() : undefined
    let running = 0
    const h = startCall(env, { ...s, ...(proto === 'stream' ? { options: { streamOptions: { includeUsage: true } } } : {}) }, proto, {
      lib, onExec: () => { running++ }, onExecEnd: () => { running-- },
      patch: (o) => { if (OBJECT[s.api]) { o.schema = schema(v => ({ value: v })); if (s.api === 'genarr') o.output = 'array' } },
      signal: ctl?.signal,
    })
    if (ctl) env.action('abort', () => ctl.abort(new Error('enough')), { optional: true })
    await env.run()
    if (s.abort) {
      if (proto === 'gen' ? !h.promise.ok : !h.steps.ok) return 'aborted'
    }
    const r = outcome(env, h)
    env.check(r.ok, `the run fails: ${canon(r.error)}`)
    const last = r.steps.at(-1)
    // told once each, in order, as they are in the end
    env.expect(h.obs.stepsSeen, snapshot(r.steps), 'steps given to onStepFinish (against the steps of the result)')
    if (proto !== 'gen') env.expect(h.obs.finish, [snapshot(last)], 'step given to onFinish')
    env.expect(r.usage, last?.usage, 'usage of the run (against its last step)')
    if (proto === 'gen') {
      for (const k of ['finishReason', 'text', 'toolCalls', 'toolResults']) env.expect(r.value[k], last[k], `${k} of the result (against its last step)`)
    }
    if (s.abort) return canon(last)
    const m = simulate(s, proto)
    env.expect(r.steps.length, m.steps.length, 'number of steps')
    m.steps.forEach((w, i) => env.check(sameStep(r.steps[i], w), `step ${i} should be ${canon(w)}, is ${canon(r.steps[i])}`))
    env.expect(r.totalUsage, m.totalUsage, 'total usage')
    env.check(s.odd || sameTranscript(r.transcript, m.transcript), `the history should be ${canon(m.transcript)}, is ${canon(r.transcript)}`)
    if (proto === 'gen') {
      const w = m.steps.at(-1)
      env.expect(r.value.finishReason, w.finishReason, 'finish reason')
      env.expect(no(r.value.text), no(w.text), 'text')
      env.expect(r.value.toolCalls, w.toolCalls, 'tool calls')
      env.check(r.value.toolResults.length === w.toolResults.length && w.toolResults.every((x, i) => sameResult(r.value.toolResults[i], x)), `tool results should be ${canon(w.toolResults)}, are ${canon(r.value.toolResults)}`)
      env.expect(no(r.value.reasoningText), no(m.reasoningText), 'reasoning text')
    }
    return canon([r.steps, r.value?.reasoningText])
  },
}
