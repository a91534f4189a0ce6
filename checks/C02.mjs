import { scribbled, SCRIBBLERS, scribbling } from './C01.mjs'
import { chunkOf, foldChunks, outcome, requestInput, sameStep, sameTranscript, simulate, startCall, streamChunks } from '../lib/chat.mjs'
import { FINAL_TURNS, MESSAGES, TOOL_TURNS, TOOLS } from '../lib/families.mjs'
import { canon, clone, sequences } from '../lib/util.mjs'

const tc = (index, id, name, args) => ({ function: { ...(name !== undefined ? { name } : {}), ...(args !== undefined ? { arguments: args } : {}) }, index, ...(id !== undefined ? { id, type: 'function' } : {}) })
// delta alphabet; `need` tool-call indices must have been started before, `start` ones must not
export const D = {
  t: { d: { content: 'Hi' } },
  e: { d: { content: '' } },
  u: { d: { content: ' u\u0308😀\n' } },
  r: { d: { reasoning_content: 'why' } },
  s0: { d: { tool_calls: [tc(0, 'c0', 'a', '')] }, start: [0] },
  s0x: { d: { tool_calls: [tc(0, 'c0', 'a', '{"x"')] }, start: [0] },
  s1: { d: { tool_calls: [tc(1, 'c1', 'b')] }, start: [1] },
  a0: { d: { tool_calls: [tc(0, undefined, undefined, ':"1"}')] }, need: [0] },
  n0: { d: { tool_calls: [tc(0, undefined, undefined, undefined)] }, need: [0] },
  a1: { d: { tool_calls: [tc(1, undefined, undefined, '{}')] }, need: [1] },
  both: { d: { content: 'mix', tool_calls: [tc(0, 'c0', 'a', '{}')] }, start: [0] },
  bothA: { d: { content: 'mid', tool_calls: [tc(0, undefined, undefined, ' ')] }, need: [0] },
  nul: { d: { content: null, reasoning_content: null, tool_calls: [] } },
  two: { d: { tool_calls: [tc(0, 'c0', 'a', '{"x":'), tc(1, 'c1', 'b', '[')] }, start: [0, 1] },
  twoA: { d: { tool_calls: [tc(1, undefined, undefined, ']'), tc(0, undefined, undefined, '2}')] }, need: [0, 1] },
  s3: { d: { tool_calls: [tc(3, 'c3', 'p', '{"k":"v"}')] }, start: [3] },
  f: { d: {}, rest: { finish_reason: 'length' } },
  R: { d: { content: 'x', reasoning_content: 'y' } },
  F: { d: { refusal: 'no way' } },
}
// what some servers send besides: later deltas that repeat the id and name, or hold them empty or null, and null finish reasons
export const D2 = {
  again0: { d: { tool_calls: [tc(0, 'c0', 'a', '7')] }, need: [0] },
  again1: { d: { tool_calls: [tc(1, 'c1', 'b', ' ')] }, need: [1] },
  blank0: { d: { tool_calls: [tc(0, '', '', '8')] }, need: [0] },
  other0: { d: { tool_calls: [tc(0, 'idX', 'zz', '6')] }, need: [0] },
  null0: { d: { tool_calls: [tc(0, null, null, '9')] }, need: [0] },
  fnull: { d: {}, rest: { finish_reason: null } },
  // the empty reasoning of a leading delta; the halves of a surrogate pair on their own
  re: { d: { content: null, reasoning_content: '', role: 'assistant' } },
  hi: { d: { content: 'a\uD83D' } },
  lo: { d: { content: '\uDE00' } },
  tnull: { d: { content: 'n' }, rest: { finish_reason: null, logprobs: null } },
  fcall: { d: {}, rest: { finish_reason: 'tool_calls' } },
  // the end of the step together with its last piece of text, or of a call
  ft: { d: { content: 'Hi' }, rest: { finish_reason: 'stop' } },
  fr: { d: { reasoning_content: 'why' }, rest: { finish_reason: 'length' } },
  fs: { d: { tool_calls: [tc(0, 'c0', 'a', '{}')] }, rest: { finish_reason: 'tool_calls' }, start: [0] },
  // calls whose ids say nothing about them
  same1: { d: { tool_calls: [tc(1, 'c0', 'b', '{"y":2}')] }, start: [1] },
  anon0: { d: { tool_calls: [tc(0, '', 'a', '{"x":1}')] }, start: [0] },
  anon1: { d: { tool_calls: [tc(1, '', 'b', '')] }, start: [1] },
  // what a server wants back with the calls of the step
  x0: { d: { tool_calls: [{ ...tc(0, 'c0', 'a', '{}'), extra_content: { google: { thought_signature: 'sig' } } }] }, start: [0] },
  x1: { d: { tool_calls: [{ ...tc(1, 'c1', 'b', ''), extra_content: { n: [1, null] } }] }, start: [1] },
  fa: { d: { tool_calls: [tc(0, undefined, undefined, '}')] }, need: [0], rest: { finish_reason: 'tool_calls' } },
}
const ALL = { ...D, ...D2 }
/** all legal delta sequences: over the whole alphabet up to n - 1 deltas, over the main part of it up to n */
export function * deltaSequences(n, min = 1) {
  for (const seq of sequences(Object.keys(ALL), n - 1, min)) if (legal(seq)) yield seq
  for (const seq of sequences(Object.keys(D), n, n)) if (legal(seq)) yield seq
}
export const legal = (seq) => {
  const st = new Set()
  for (const k of seq) {
    const o = ALL[k]
    for (const i of o.need ?? []) if (!st.has(i)) return false
    for (const i of o.start ?? []) { if (st.has(i)) return false; st.add(i) }
  }
  return true
}
export const turnOf = (seq, fin) => ({ chunks: [...seq.map(k => chunkOf(ALL[k].d, ALL[k].rest)), ...(fin ? [chunkOf({}, { finish_reason: 'stop' })] : [])] })

/** streams of a step with more calls than have one digit */
export function * manyCalls() {
  for (const n of [11, 12, 25]) {
    const ids = Array.from({ length: n }, (_, i) => i)
    const start = i => tc(i, `c${i}`, ['a', 'b', 'p', 'other'][i % 4], `{"i":${i}`)
    const rest = i => tc(i, undefined, undefined, '}')
    const fin = chunkOf({}, { finish_reason: 'tool_calls' })
    yield [chunkOf({ tool_calls: ids.map(start) }), chunkOf({ tool_calls: ids.map(rest) }), fin]
    yield [...ids.flatMap(i => [chunkOf({ tool_calls: [start(i)] }), chunkOf({ tool_calls: [rest(i)] })]), fin]
    yield [...ids.map(i => chunkOf({ tool_calls: [start(i)] })), ...[...ids].reverse().map(i => chunkOf({ tool_calls: [rest(i)] })), fin]
  }
}

export default {
  id: 'C02',
  traced: { only: (s, tier) => s.turns.every(t => (t.chunks?.length ?? 0) <= (tier === 'quick' ? 3 : 4) || t.chunks.length > 20), quick: 0, thorough: 1 },
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'all legal delta sequences up to length 4 over a 19-symbol delta alphabet, up to length 3 over 39 symbols (repeated, different, shared, empty and null ids and names, several finish reasons, alone and with the last piece, empty reasoning, half characters), steps of 11, 12 and 25 calls, 2-turn histories over 7 turn shapes with every split factor 1-4, completion orders within 1 deviation',
    thorough: 'delta sequences up to length 5 (4 over 39 symbols), 3-turn histories, 2 deviations',
  },
  * scenarios(tier) {
    const base = { messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS }
    for (const f of Object.keys(FINAL_TURNS)) for (const m of Object.keys(MESSAGES)) for (const split of [1, 2, 5]) yield { ...base, messages: MESSAGES[m], turns: [{ ...FINAL_TURNS[f], split }] }
    for (const seq of sequences(Object.keys(TOOL_TURNS), tier === 'quick' ? 2 : 3, 1)) for (const split of seq.length > 1 ? [2, 3] : [1, 2, 3, 4]) yield { ...base, dev: seq.length > 2 ? 1 : undefined, messages: MESSAGES.history, turns: [...seq.map((k, i) => ({ ...TOOL_TURNS[k](i), split })), FINAL_TURNS.reasoning] }
    for (const seq of deltaSequences(tier === 'quick' ? 4 : 5, 0)) yield { ...base, dev: 0, seq, turns: [turnOf(seq, true), { text: 'done' }] }
    // the same delta sequence in a later step, after one with other calls, and without a finish chunk
    for (const seq of deltaSequences(3)) if (seq.length < 3) yield { ...base, dev: 0, turns: [TOOL_TURNS.three(0), turnOf(seq, false), turnOf(['r', 't'], true)] }
    for (const chunks of manyCalls()) yield { ...base, dev: 0, turns: [{ chunks }, { text: 'done' }] }
    for (const n of [0, 1, 9, 17, 33, 65, 130]) for (const who of SCRIBBLERS) yield scribbling(n, who)
    for (const len of [5, 12]) yield { ...base, dev: 0, turns: [...Array.from({ length: len }, (_, i) => TOOL_TURNS[Object.keys(TOOL_TURNS)[i % 7]](i)), FINAL_TURNS.text] }
  },
  async execute(env, s) {
    if (s.scribble) return await scribbled(env, s, 'stream')
    const m = simulate(s, 'stream')
    const messages = clone(s.messages)
    const before = canon(messages)
    env.onRequest = () => { if (canon(messages) !== before) env.fail('the caller\'s messages were modified while the call was running', messages) }
    const h = startCall(env, s, 'stream', { messages })
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    env.check(h.obs.requests.length === m.requests.length, `expected ${m.requests.length} requests, saw ${h.obs.requests.length}`)
    m.requests.forEach((q, i) => {
      const got = requestInput(h.obs.requests[i], 'stream')
      env.check(sameTranscript(got, q.input), `request ${i}: messages should be ${canon(q.input)}, were ${canon(got)}`)
    })
    env.check(sameTranscript(r.transcript, m.transcript), `final messages should be ${canon(m.transcript)}, were ${canon(r.transcript)}`)
    m.steps.forEach((w, i) => {
      const g = r.steps[i]
      env.expect(g?.text, w.text, `step ${i} text`)
      env.check(sameStep(g, w, { usage: false }), `step ${i} should be ${canon(w)}, was ${canon(g)}`)
    })
    env.check(r.steps.length === m.steps.length, `expected ${m.steps.length} steps, got ${r.steps.length}`)
    // reasoning and text as delivered
    const folds = s.turns.slice(0, m.steps.length).map(t => foldChunks(streamChunks(t)))
    env.expect(h.text.items.join(''), folds.map(f => f.text).join(''), 'delivered text')
    env.expect(h.reasoning.items.join(''), folds.map(f => f.reasoning ?? '').join(''), 'delivered reasoning')
    env.check(canon(messages) === before, 'the caller\'s messages were modified')
    return canon([r.transcript, r.steps])
  },
}
