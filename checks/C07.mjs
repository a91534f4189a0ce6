import { chunkOf, outcome, simulate, startCall } from '../lib/chat.mjs'
import { MESSAGES, TOOLS } from '../lib/families.mjs'
import { canon, product, sequences } from '../lib/util.mjs'

const U = (i, o, t) => ({ completion_tokens: o, prompt_tokens: i, total_tokens: t })
const uchunk = u => ({ choices: [], created: 1, id: 'c', model: 'srv', object: 'chat.completion.chunk', system_fingerprint: 'fp', usage: u })
const call = k => ({ tool_calls: [{ function: { arguments: '{}', name: 'a' }, id: `c${k}`, index: 0, type: 'function' }] })
// ways a stream reports usage in one step
const S = {
  none: d => [chunkOf(d, { usage: undefined }), chunkOf({}, { finish_reason: 'stop' })],
  last: d => [chunkOf(d), chunkOf({}, { finish_reason: 'stop' }), uchunk(U(1, 2, 3))],
  zero: d => [chunkOf(d), chunkOf({}, { finish_reason: 'stop' }), uchunk(U(0, 0, 0))],
  nulls: d => [{ ...chunkOf(d), usage: null }, { ...chunkOf({}, { finish_reason: 'stop' }), usage: null }, uchunk(U(5, 7, 12))],
  onfinish: d => [chunkOf(d), { ...chunkOf({}, { finish_reason: 'stop' }), usage: U(10, 20, 30) }],
  running: d => [{ ...chunkOf({ role: 'assistant' }), usage: U(100, 0, 100) }, { ...chunkOf(d), usage: U(100, 40, 140) }, { ...chunkOf({}, { finish_reason: 'stop' }), usage: U(100, 50, 150) }],
  odd: d => [chunkOf(d), chunkOf({}, { finish_reason: 'stop' }), uchunk(U(3, 5, 0))],
  off: d => [chunkOf(d), chunkOf({}, { finish_reason: 'stop' }), uchunk({ ...U(0, 5, 99), completion_tokens_details: { reasoning_tokens: 4 }, prompt_tokens_details: { cached_tokens: 2 } })],
  repeated: d => [chunkOf(d), { ...chunkOf({}, { finish_reason: 'stop' }), usage: U(9, 9, 18) }, uchunk(U(9, 9, 18))],
  less: d => [{ ...chunkOf(d), usage: U(9, 9, 18) }, { ...chunkOf({}, { finish_reason: 'stop' }), usage: U(8, 0, 8) }, uchunk(U(5, 2, 9))],
  early: d => [{ ...chunkOf(d), usage: U(3, 1, 4) }, { ...chunkOf({}, { finish_reason: 'stop' }), usage: null }],
}
const USAGES = [undefined, [1, 2, 3], [0, 0, 0], [10, 20, 30], [7, 0, 8], [0, 4, 0], [5, 6, 1], [1e9, 3, 1e9 + 3]]

export default {
  id: 'C07',
  traced: { quick: 0, thorough: 1 },
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: 'all histories of up to 3 steps over 11 ways a stream reports usage; over 8 usage values per step for non-streaming and Responses runs; early stop at every step; runs of 13 steps; Responses runs ending in failed/incomplete responses',
    thorough: 'up to 4 steps',
  },
  * scenarios(tier) {
    const N = tier === 'quick' ? 3 : 4
    const base = { messages: MESSAGES.user, tools: TOOLS }
    for (const seq of sequences(Object.keys(S), N, 1)) {
      const turns = seq.map((k, i) => ({ chunks: S[k](i < seq.length - 1 ? call(i) : { content: 'end' }) }))
      yield { ...base, proto: 'stream', stop: { k: 'never' }, turns }
      if (seq.length < N) yield { ...base, proto: 'stream', stop: undefined, turns: [{ chunks: S[seq[0]](call(0)) }, ...turns.slice(1)] }
      if (seq.length > 1) yield { ...base, proto: 'stream', stop: { k: 'count', n: seq.length - 1 }, turns }
    }
    for (const seq of sequences(USAGES, N, 1)) {
      const turns = seq.map((usage, i) => ({ ...(i < seq.length - 1 ? { calls: [{ args: '{}', id: `c${i}`, name: 'a' }] } : {}), text: `t${i}`, ...(usage ? { usage } : {}) }))
      if (seq.every(Boolean)) yield { ...base, proto: 'gen', stop: { k: 'never' }, turns }
      yield { ...base, proto: 'resp', stop: { k: 'never' }, turns }
      if (seq.length > 1 && seq.every(Boolean)) yield { ...base, proto: 'gen', stop: { k: 'count', n: seq.length - 1 }, turns }
      if (seq.length > 1) yield { ...base, proto: 'resp', stop: { k: 'count', n: seq.length - 1 }, turns }
    }
    // many steps
    for (const a of Object.keys(S)) for (const b of Object.keys(S)) for (const stop of [{ k: 'never' }, { k: 'count', n: 11 }]) yield { ...base, proto: 'stream', stop, turns: Array.from({ length: 13 }, (_, i) => ({ chunks: S[i % 3 ? a : b](i < 12 ? call(i) : { content: 'end' }) })) }
    for (const proto of ['gen', 'resp']) for (const a of USAGES) for (const b of USAGES) if (proto === 'resp' || (a && b)) for (const stop of [{ k: 'never' }, { k: 'count', n: 11 }]) yield { ...base, proto, stop, turns: Array.from({ length: 13 }, (_, i) => ({ ...(i < 12 ? { calls: [{ args: '{}', id: `c${i}`, name: 'a' }] } : {}), text: `t${i}`, ...((i % 3 ? a : b) ? { usage: i % 3 ? a : b } : {}) })) }
    for (const status of ['failed', 'incomplete']) for (const [a, b] of product([USAGES, USAGES])) yield { ...base, proto: 'resp', stop: { k: 'never' }, turns: [{ calls: [{ args: '{}', id: 'c0', name: 'a' }], text: 'x', usage: a }, { status, text: 'partial', usage: b }] }
  },
  async execute(env, s) {
    const m = simulate(s, s.proto)
    const h = startCall(env, s, s.proto)
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    env.expect(r.steps.map(x => x.usage), m.steps.map(x => x.usage), 'usage per step')
    env.expect(r.usage, m.usage, 'usage of the result')
    env.expect(r.totalUsage, m.totalUsage, 'total usage')
    env.expect(h.obs.stepsSeen.map(x => x.usage), m.steps.map(x => x.usage), 'usage reported to onStepFinish')
    if (s.proto !== 'gen') env.expect(h.eventStream.items.filter(e => e.type === 'step.done').map(e => e.usage), m.steps.map(x => x.usage), 'usage of the step.done events')
    if (s.stop?.k !== undefined && s.proto !== 'resp') env.check(h.obs.stops.every((c, i) => canon(c.step.usage) === canon(m.stops[i].step.usage)), 'usage seen by the stop condition')
    return canon([r.usage, r.totalUsage])
  },
}
