import { outcome, startCall } from '../lib/chat.mjs'
import { FINAL_TURNS, longRun, MESSAGES, ODD_CALLS, TOOL_TURNS, TOOLS, withCalls } from '../lib/families.mjs'
import { canon, product, sequences } from '../lib/util.mjs'

/** within a step, completion orders decide the order of executions and hook calls */
const sorted = xs => xs.map(x => [canon(x), x]).sort((a, b) => a[0] < b[0] ? -1 : 1).map(x => x[1])
/** what a server may report differently in the two protocols: absent text is empty text, streamed calls carry their index */
const msg = (m) => {
  const { content, tool_calls, ...r } = m
  return { ...r, content: content ?? '', ...(tool_calls?.length ? { tool_calls: tool_calls.map(({ index, ...c }) => c) } : {}) }
}
const step = ({ text, ...s }) => ({ ...s, text: text ?? '' })
const STOPS = [undefined, { k: 'never' }, { k: 'count', n: 2 }, { k: 'tool', v: 'a' }, { k: 'text', v: 'see' }, { k: 'finish', v: 'length' }, { k: 'input', n: 4 }]
const OPTIONS = [{}, { frequencyPenalty: 0, maxTokens: 5, parallelToolCalls: false, reasoningEffort: 'low', seed: 0, stop: ['a', 'b'], temperature: 0.5, topP: 1 }, { responseFormat: { json_schema: { name: 'x', schema: { type: 'object' } }, type: 'json_schema' }, toolChoice: 'required', user: 'u' }]
const PIECED = ['{ "x" : "a  b" }\n', '\n{"x":"aa"}', '   ', '{"x":[11,11],"y":"\\\\\\\\"}', '{"a":{"a":{"a":{}}}}', '{"😀":"\\u00e9  "}']
const VALIDATED = [{ name: 'a', validate: 'value' }, { kind: 'throwErr', name: 'b' }, { kind: 'parts', mode: 'sync', name: 'p', validate: 'issues' }, { mode: 'async', name: 'other' }]

export default {
  id: 'C13',
  traced: { quick: 0, thorough: 1 },
  dev: { quick: 1, thorough: 1 },
  bounds: {
    quick: 'all histories of up to 2 tool turns (7 shapes) and a final turn (4 shapes) x 7 stop conditions; all 9x4 hook combinations, 2 tool sets, 3 option sets, 6 prepare-step behaviours, runs of 13 steps, 5 failure kinds at each step; tool calls without a type or with vendor members; arguments, text and reasoning in 3, 5 and single-character pieces, white space and repetitions included; completion orders within 1 deviation (the other version stays canonical)',
    thorough: 'up to 3 tool turns; completion orders within 1 deviation (the other version stays canonical)',
  },
  * scenarios(tier) {
    const T = Object.keys(TOOL_TURNS); const F = Object.keys(FINAL_TURNS)
    const mk = (seq, f, extra) => ({ messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), FINAL_TURNS[f]], ...extra })
    for (const seq of sequences(T, tier === 'quick' ? 2 : 3)) for (const f of F) for (const stop of STOPS) yield mk(seq, f, { stop })
    for (const m of Object.keys(MESSAGES)) for (const options of OPTIONS) for (const k of T) yield mk([k], 'text', { messages: MESSAGES[m], options })
    for (const seq of sequences(T, 2, 1)) yield mk(seq, 'text', { tools: VALIDATED })
    for (const k of T) for (const [pre, post] of product([[undefined, 'void', 'args', 'badargs', 'name', 'noname', 'result', 'strresult', 'throw', 'badId'], [undefined, 'replace', 'obj', 'throw', 'badId']])) {
      yield mk([k, 'one'], 'text', { post, pre })
      yield mk([k], 'text', { post: post && { async: true, k: post }, pre: pre && { async: true, k: pre }, tools: VALIDATED })
    }
    for (const seq of sequences(T, 2, 1)) for (const p of [{ model: 'alt' }, { toolChoice: 'none' }, { input: 'last' }, { input: 'prefix', mutate: true }, { ret: 'undefined' }]) yield mk(seq, 'text', { prep: { per: [{}, p, {}] } })
    for (const k of T) for (const finish of ['length', 'stop', 'content_filter', 'function_call']) for (const stop of [undefined, { k: 'never' }, { k: 'finish', v: 'length' }]) yield { ...mk([k], 'text', { stop }), turns: [{ ...TOOL_TURNS[k](0), finish }, { ...FINAL_TURNS.text, finish }] }
    for (const seq of sequences(T, 2, 1)) for (const o of Object.keys(ODD_CALLS)) yield { ...mk(seq, 'text'), turns: [...seq.map((k, i) => withCalls(TOOL_TURNS[k](i), ODD_CALLS[o])), FINAL_TURNS.text] }
    for (const from of T.keys()) for (const stop of [{ k: 'never' }, { k: 'count', n: 11 }, { k: 'input', n: 14 }]) for (const prep of [undefined, { per: Array.from({ length: 13 }, (_, i) => i % 4 === 3 ? { input: 'last' } : {}) }]) yield { ...mk([], 'text', { dev: 0, prep, stop }), turns: longRun(12, from) }
    for (const t of [undefined, []]) for (const k of T) yield mk([k], 'text', { tools: t })
    // everything that comes in pieces comes in pieces of every size, those with nothing but white space, and those that are equal to the one before, included
    for (const split of [3, 5, 99]) {
      for (const seq of sequences(T, 2, 1)) for (const f of F) yield { ...mk(seq, f), turns: [...seq.map((k, i) => ({ ...TOOL_TURNS[k](i), split })), { ...FINAL_TURNS[f], split }] }
      for (const args of PIECED) for (const text of [undefined, null, 'haha', ' \n\n ', 'a  b ', '😀😀']) for (const reasoning of [undefined, 'hmm  hmm ']) yield { ...mk([], 'text'), turns: [{ calls: [{ args, id: 'p', name: 'a' }, { args, id: 'q', name: 'b' }], reasoning, split, text, usage: [1, 2, 3] }, { split, text: text || 'haha', usage: [1, 2, 3] }] }
    }
    // answers that say nothing, with and without thoughts
    for (const seq of sequences(['one', 'errors', 'three'], 1)) for (const text of [null, '', ' ', '\n']) for (const reasoning of [undefined, '', 'why', ' why\n']) for (const finish of [undefined, 'length']) for (const stop of STOPS.slice(0, 3)) yield { ...mk(seq, 'text', { stop }), turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), { finish, reasoning, text, usage: [1, 2, 3] }] }
    for (const seq of sequences(['one', 'two'], 2)) for (const status of [400, 503]) yield { ...mk(seq, 'text'), turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), { answer: { auto: true, status, text: 'down' } }] }
    for (const seq of sequences(['one', 'two'], 2)) yield { ...mk(seq, 'text'), turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), { answer: { auto: true, nullBody: true } }] }
    for (const seq of sequences(['one', 'errors'], 1)) yield { ...mk(seq, 'text'), turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), { calls: [{ args: '{}', id: 'z' }], text: null, usage: [1, 2, 3] }] }
  },
  async execute(env, s) {
    const go = async (proto) => {
      const sc = { ...s, ...(proto === 'stream' ? { options: { ...s.options, streamOptions: { includeUsage: true } } } : {}) }
      const h = startCall(env, sc, proto, { tag: proto })
      await env.run()
      const r = outcome(env, h)
      const bodies = h.obs.requests.map(({ headers, json: { messages, stream, stream_options, ...j } }) => ({ ...j, headers, messages: messages.map(msg) }))
      return { h, r, view: {
        'executed tools': sorted(h.obs.execs.map(e => [e.name, e.id, e.input, e.messages.map(msg)])),
        'hook calls': [sorted(h.obs.pre.map(x => ({ ...x, messages: x.messages.map(msg), signal: 0 }))), sorted(h.obs.post.map(x => ({ ...x, messages: x.messages.map(msg), signal: 0 })))],
        'prepare-step calls': h.obs.preps.map(x => ({ ...x, input: x.input.map(msg), steps: x.steps.map(step) })),
        requests: bodies,
        'steps reported': h.obs.stepsSeen.map(step),
        'stop evaluations': h.obs.stops.map(x => ({ input: x.input.map(msg), step: step(x.step), steps: x.steps.map(step) })),
        validations: sorted(h.obs.validations),
        ...(r.ok ? { steps: r.steps.map(step), 'total usage': r.totalUsage, transcript: r.transcript.map(msg), usage: r.usage } : {}),
      } }
    }
    const a = await go('gen'); const b = await go('stream')
    env.check(a.r.ok === b.r.ok, `the non-streaming call ${a.r.ok ? 'succeeds' : `fails with ${canon(a.r.error)}`}, the streaming one ${b.r.ok ? 'succeeds' : `fails with ${canon(b.r.error)}`}`)
    if (!a.r.ok) env.check(a.r.error?.name === b.r.error?.name && a.r.error?.reason === b.r.error?.reason, `different errors: ${canon(a.r.error)} and ${canon(b.r.error)}`)
    for (const k of Object.keys(a.view)) env.check(canon(a.view[k]) === canon(b.view[k]), `${k} differ: non-streaming ${canon(a.view[k])}, streaming ${canon(b.view[k])}`)
    return canon(a.view)
  },
}
