import { outcome, requestInput, sameStep, sameTranscript, simulate, startCall } from '../lib/chat.mjs'
import { MESSAGES, TOOLS } from '../lib/families.mjs'
import { canon, clone, product, sequences } from '../lib/util.mjs'

const call = (n, id, args = '{"x":"1"}') => ({ args, id, name: n })
const TURNS = [
  { calls: [call('a', 'c0')], text: 'one', usage: [1, 2, 3] },
  { calls: [call('b', 'c1'), call('p', 'c2', '{}')], reasoning: 'why', text: null, usage: [2, 2, 4] },
  { calls: [call('other', 'c3')], text: 'three', usage: [3, 3, 6] },
  { text: 'end', usage: [1, 1, 2] },
]
const long = Array.from({ length: 13 }, (_, i) => i === 12 ? TURNS[3] : { ...TURNS[i % 3], calls: TURNS[i % 3].calls.map((c, k) => ({ ...c, id: `l${i}.${k}` })) })
const OV = {
  none: {}, undef: { ret: 'undefined' }, nulls: { nulls: true }, model: { model: 'alt' }, noModel: { model: '' }, choice: { toolChoice: 'none' }, fn: { toolChoice: { function: { name: 'a' }, type: 'function' } },
  last: { input: 'last' }, prefix: { input: 'prefix' }, all: { input: 'prefix', model: 'alt2', toolChoice: 'required' }, empty: { input: 'empty' },
  mutate: { mutate: true }, mutall: { input: 'prefix', model: 'alt3', mutate: true }, later: { input: 'prefix', later: true, toolChoice: { function: { name: 'b' }, type: 'function' } }, share: { input: 'prefix', share: true }, sharel: { input: 'prefix', later: true, share: true }, laterm: { input: 'last', later: true, mutate: true },
}
export default {
  id: 'C08',
  traced: { quick: 1, thorough: 1 },
  dev: { quick: 0, thorough: 1 },
  bounds: {
    quick: '17 override/mutation behaviours at each of 2 steps (all pairs) and of 3 steps (reduced alphabet), every behaviour in runs of 13 steps, synchronous and asynchronous callbacks (native and foreign promises), call-level tool choice present or absent, 3 loop implementations',
    thorough: 'all triples; completion orders within 1 deviation',
  },
  * scenarios(tier) {
    const ks = Object.keys(OV)
    const mk = (proto, per, extra = {}) => ({ messages: MESSAGES.history, proto, prep: { per }, stop: { k: 'never' }, tools: TOOLS, turns: TURNS, ...extra })
    for (const proto of ['gen', 'stream', 'resp']) {
      for (const k of ks) for (const async of [false, true, 'then']) for (const toolChoice of [undefined, 'auto']) yield mk(proto, [0, 1, 2, 3].map(() => ({ ...OV[k], async })), { toolChoice })
      for (const [a, b] of product([ks, ks])) yield mk(proto, [OV[a], OV[b], {}, {}].map((x, i) => ({ ...x, async: i === 1 && (ks.indexOf(b) % 2 ? 'then' : true) })), { toolChoice: 'auto' })
      for (const seq of sequences(tier === 'quick' ? ['none', 'all', 'mutall', 'later', 'laterm'] : ks, 3, 3)) yield mk(proto, [...seq.map(k => OV[k]), {}])
      for (const k of ks) yield mk(proto, [OV[k]], { stop: undefined })
      // long runs: what callbacks are given stays their own however many steps there are
      for (const k of ks) for (const other of ['none', 'laterm']) yield { ...mk(proto, Array.from({ length: 13 }, (_, i) => OV[i % 3 === 2 ? other : k])), turns: long }
      for (const k of ks) yield { ...mk(proto, [{}, OV[k], OV[k], {}]), input: proto === 'resp' ? 'plain text' : undefined }
    }
  },
  async execute(env, s) {
    const { proto } = s
    const m = simulate(s, proto)
    const given = []
    const messages = clone(s.messages)
    const before = canon(messages)
    const scribble = () => {
      const specs = s.prep.per
      for (const g of given) {
        if (!specs[g.n]?.later) continue
        // later mutation of what the callback was given
        try { for (const x of g.c.input) { x.content = 'LATE'; x.late = true } g.c.input.length = 0 } catch {}
        try { for (const st of g.c.steps) { st.text = 'LATE'; for (const t of [...st.toolCalls, ...st.toolResults]) { t.args = 'LATE'; t.result = 'LATE' } st.toolCalls.length = 0; if (st.usage) st.usage.inputTokens = -7 } } catch {}
      }
      for (const ret of h.obs.laterMutations ?? []) {
        try { if (ret?.input) { for (const x of ret.input) { x.content = 'LATE'; x.late = true } ret.input.push({ content: 'EXTRA', role: 'user' }) } } catch {}
        try { if (ret && typeof ret.toolChoice === 'object') ret.toolChoice.function.name = 'LATE' } catch {}
      }
    }
    const obs = { clock: 0, events: [], execs: [], finish: [], post: [], pre: [], preps: [], requests: [], stepsSeen: [], stops: [], validations: [] }
    const h = { obs }
    Object.assign(h, startCall(env, s, proto, { messages, obs, onExec: scribble, onPrep: (c) => { scribble(); given.push({ c, n: c.stepNumber }) }, onStepFinish: scribble, onStop: scribble }))
    env.onRequest = undefined
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    env.check(obs.preps.length === m.preps.length, `prepareStep should run ${m.preps.length} times, ran ${obs.preps.length}`)
    m.preps.forEach((w, i) => {
      const g = obs.preps[i]
      env.check(g.stepNumber === w.stepNumber && g.model === w.model, `prepareStep ${i}: expected step ${w.stepNumber} model ${w.model}, got ${canon([g.stepNumber, g.model])}`)
      env.check(sameTranscript(g.input, w.input), `prepareStep ${i}: input should be ${canon(w.input)}, was ${canon(g.input)}`)
      env.check(g.steps.length === w.steps.length && w.steps.every((x, k) => sameStep(g.steps[k], x)), `prepareStep ${i}: steps should be ${canon(w.steps)}, were ${canon(g.steps)}`)
    })
    env.check(obs.requests.length === m.requests.length, `expected ${m.requests.length} requests, saw ${obs.requests.length}`)
    m.requests.forEach((q, i) => {
      const rec = obs.requests[i]
      env.check(sameTranscript(requestInput(rec, proto), q.input), `request ${i}: input should be ${canon(q.input)}, was ${canon(requestInput(rec, proto))}`)
      env.expect(rec.json.model, q.model, `request ${i}: model`)
      env.expect(rec.json.tool_choice, q.toolChoice, `request ${i}: tool choice`)
    })
    env.check(sameTranscript(r.transcript, m.transcript), `transcript should be ${canon(m.transcript)}, was ${canon(r.transcript)}`)
    m.steps.forEach((w, i) => env.check(sameStep(r.steps[i], w), `step ${i} should be ${canon(w)}, was ${canon(r.steps[i])}`))
    env.check(canon(messages) === before, 'the caller\'s messages were modified')
    return canon(obs.requests.map(q => q.json))
  },
}
