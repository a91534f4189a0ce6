import { assistantMessage, outcome, RESULTS, sameTranscript, simulate, startCall, requestInput } from '../lib/chat.mjs'
import { FINAL_TURNS, MESSAGES, ODD_CALLS, TOOL_TURNS, TOOLS, withCalls } from '../lib/families.mjs'
import { canon, clone, sequences } from '../lib/util.mjs'

export const SCRIBBLERS = ['tool', 'prep', 'stop', 'step', 'event', 'all']
export const scribbling = (n, scribble) => ({ dev: 0, messages: Array.from({ length: n }, (_, i) => i % 3 ? { content: `m${i}`, role: i % 2 ? 'user' : 'assistant' } : { content: [{ text: `part ${i}`, type: 'text' }], role: 'user' }), scribble, stop: { k: 'never' }, tools: TOOLS, turns: [TOOL_TURNS.two(0), TOOL_TURNS.one(1), FINAL_TURNS.text] })
const GEN_TURNS = {
  ...TOOL_TURNS,
  parts: k => ({ calls: [{ args: '{}', id: `c${k}`, name: 'a' }], parts: [{ text: 'A', type: 'text' }, { refusal: 'no', type: 'refusal' }, { text: 'B', type: 'text' }], usage: [1, 1, 2] }),
  extra: k => ({ calls: [{ args: '{"x":"1"}', id: `c${k}`, name: 'a' }], extra: { annotations: [{ k }], audio: null }, reasoning: '', refusal: 'x', text: ' ', usage: [1, 1, 2] }),
}
const GEN_FINALS = {
  ...FINAL_TURNS,
  parts: { parts: [{ text: 'A', type: 'text' }, { text: 'B', type: 'text' }], usage: [1, 1, 2] },
  nulltext: { text: null, refusal: 'cannot', usage: [1, 1, 2] },
  emptyCalls: { calls: [], text: 't', usage: [1, 1, 2] },
  multi: { moreChoices: [{ finish_reason: 'stop', index: 1, message: { content: 'second', role: 'assistant', tool_calls: [{ function: { arguments: '{}', name: 'a' }, id: 'no', type: 'function' }] } }], text: 'first', usage: [1, 1, 2] },
}

export default {
  id: 'C01',
  traced: { quick: 1, thorough: 2 },
  dev: { quick: 1, thorough: 3 },
  bounds: {
    quick: 'histories of up to 2 tool turns (9 turn shapes) + final turn (8 shapes), 5 caller transcripts, 26 result kinds (also dates, URLs and classes with their own JSON form), completion orders within 1 deviation',
    thorough: 'histories of up to 3 tool turns, 3 deviations',
  },
  * scenarios(tier) {
    const kinds = Object.keys(GEN_TURNS); const finals = Object.keys(GEN_FINALS)
    const mk = (seq, f, m, extra = {}) => ({ messages: MESSAGES[m], stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => GEN_TURNS[k](i)), GEN_FINALS[f]], ...extra })
    for (const f of finals) for (const m of Object.keys(MESSAGES)) { yield mk([], f, m); yield mk([], f, m, { stop: undefined }) }
    for (const seq of sequences(kinds, 2, 1)) for (const m of seq.length === 1 ? Object.keys(MESSAGES) : ['history', 'user']) yield mk(seq, seq.length === 1 ? 'text' : 'reasoning', m)
    for (const f of finals) for (const k of kinds) yield mk([k], f, 'sysuser')
    // every result shape, as only, first and last of the calls
    for (const kind of Object.keys(RESULTS)) {
      for (const pos of [0, 1, 2]) {
        const calls = [0, 1, 2].map(i => ({ args: `{"i":${i}}`, id: `id${i}`, name: i === pos ? 'z' : 'a' }))
        for (const mode of ['defer', 'sync', 'async']) yield { messages: MESSAGES.user, stop: { k: 'never' }, tools: [...TOOLS, { kind, mode, name: 'z' }], turns: [{ calls, text: 'go' }, GEN_FINALS.text] }
        yield { messages: MESSAGES.user, stop: { k: 'never' }, tools: [...TOOLS, { kind, name: 'z' }], turns: [{ calls: calls.slice(pos, pos + 1), text: 'go' }, { calls: calls.slice(0, pos), text: 'again' }, GEN_FINALS.text] }
      }
    }
    // hooks change what is reported, never the shape of the transcript
    for (const pre of ['args', 'result', 'strresult', 'throw', 'name']) yield mk(['two', 'one'], 'text', 'user', { pre })
    for (const post of ['replace', 'obj', 'throw']) yield mk(['two', 'one'], 'text', 'user', { post })
    // duplicated and odd call ids
    for (const ids of [['same', 'same'], ['', 'x'], ['__proto__', 'constructor'], ['call-1', 'call-10']]) yield { messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [{ calls: ids.map((id, i) => ({ args: `{"i":${i}}`, id, name: i ? 'b' : 'a' })), text: null }, GEN_FINALS.text] }
    // calls as some servers write them
    for (const o of Object.keys(ODD_CALLS)) for (const seq of sequences(Object.keys(TOOL_TURNS), 1, 1)) yield { messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => withCalls(TOOL_TURNS[k](i), ODD_CALLS[o])), GEN_FINALS.text] }
    // many calls in a step
    for (const n of [9, 12, 25]) for (const at of [0, 1]) yield { dev: 0, messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [...at ? [GEN_TURNS.two(0)] : [], { calls: Array.from({ length: n }, (_, i) => ({ args: i % 3 ? `{"i":${i}}` : '', id: `m${i}`, name: ['a', 'b', 'p', 'ghost'][i % 4] })), text: null }, GEN_FINALS.text] }
    // callbacks that scribble over what they are shown, with short and long transcripts
    for (const n of [0, 1, 9, 17, 33, 65, 130]) for (const who of SCRIBBLERS) yield scribbling(n, who)
    // long runs
    for (const len of tier === 'quick' ? [4, 8] : [4, 8, 16]) yield { dev: 0, ...mk(Array.from({ length: len }, (_, i) => kinds[i % kinds.length]), 'text', 'history') }
    if (tier === 'thorough') for (const seq of sequences(kinds, 3, 3)) yield mk(seq, 'text', 'history', { dev: 1 })
  },
  async execute(env, s) {
    if (s.scribble) return await scribbled(env, s, 'gen')
    const m = simulate(s, 'gen')
    const messages = clone(s.messages)
    const before = canon(messages)
    env.onRequest = () => { if (canon(messages) !== before) env.fail('the caller\'s messages were modified while the call was running', messages) }
    const h = startCall(env, s, 'gen', { messages })
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    env.check(h.obs.requests.length === m.requests.length, `expected ${m.requests.length} requests, saw ${h.obs.requests.length}`)
    m.requests.forEach((q, i) => {
      const got = requestInput(h.obs.requests[i], 'gen')
      env.check(sameTranscript(got, q.input), `request ${i}: messages should be ${canon(q.input)}, were ${canon(got)}`)
    })
    env.check(sameTranscript(r.transcript, m.transcript), `final messages should be ${canon(m.transcript)}, were ${canon(r.transcript)}`)
    // the assistant entries are the server's messages, unchanged
    const ai = r.transcript.slice(s.messages.length).filter(x => x.role === 'assistant')
    ai.forEach((x, i) => env.expect(x, assistantMessage(s.turns[i]), `assistant message ${i}`))
    env.check(canon(messages) === before, 'the caller\'s messages were modified')
    env.check(canon(s.messages) === before, 'harness')
    return canon(r.transcript)
  },
}

/** whatever callbacks do to the transcripts they are shown, the caller's own stays as it was */
export async function scribbled(env, s, api) {
  const messages = clone(s.messages)
  const before = canon(messages)
  const own = messages.slice()
  const spoil = (list) => {
    if (!Array.isArray(list) || list === messages) return
    for (const m of list) {
      if (Array.isArray(m?.content)) for (const p of m.content) { try { p.text = 'spoilt' } catch {} }
      try { m.content = 'spoilt'; m.mark = 1 } catch {}
    }
    try { list.push({ content: 'more', role: 'user' }) } catch {}
  }
  const when = who => (x) => { if (s.scribble === who || s.scribble === 'all') spoil(x?.messages ?? x) }
  const tool = when('tool'); const prep = when('prep'); const stop = when('stop'); const step = when('step'); const event = when('event')
  const h = startCall(env, { ...s, messages }, api, { messages, onEvent: event, scribble: true, patch: (o) => {
    for (const t of o.tools) { const f = t.execute; t.execute = (i, x) => { tool(x); return f(i, x) } }
    const { stopWhen, onStepFinish, onEvent } = o
    o.prepareStep = (x) => { prep(x); return {} }
    o.stopWhen = (...a) => { stop(a[0]); return typeof stopWhen === 'function' ? stopWhen(...a) : false }
    o.onStepFinish = (x) => { step(x); return onStepFinish?.(x) }
    o.onEvent = (x) => { event(x); return onEvent?.(x) }
  } })
  await env.run()
  const r = outcome(env, h)
  env.check(h.obs.requests.length > 0, 'no request was made')
  env.check(canon(messages) === before && messages.every((m, i) => m === own[i]), `the caller's messages were modified: ${canon(messages).slice(0, 300)}`)
  return canon(r.ok)
}
