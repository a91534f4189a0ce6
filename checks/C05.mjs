import { outcome, sameResult, sameStep, sameTranscript, simulate, startCall } from '../lib/chat.mjs'
import { MESSAGES } from '../lib/families.mjs'
import { canon } from '../lib/util.mjs'

const TOOLS = [{ name: 'a' }, { kind: 'obj', name: 'b', validate: 'valueAsync' }, { kind: 'rejectErr', name: 'r' }, { kind: 'parts', mode: 'async', name: 'p' }, { kind: 'throwErr', name: 'x' }, { kind: 'echo', name: 'other' }, { kind: 'push', name: 'm' }, { kind: 'push', mode: 'sync', name: 'ms' }, { kind: 'obj', mode: 'then', name: 't', validate: 'valueAsync' }]
const names = {
  aa: ['a', 'a'], ab: ['a', 'b'], ar: ['a', 'r'], ra: ['r', 'a'], ap: ['a', 'p'], xa: ['x', 'a'], ga: ['ghost', 'a'], bb: ['b', 'b'],
  aaa: ['a', 'a', 'a'], bar: ['b', 'a', 'r'], apb: ['a', 'p', 'b'], rra: ['r', 'r', 'a'], aaaa: ['a', 'a', 'a', 'a'], abra: ['a', 'b', 'r', 'a'], at: ['a', 't'], tta: ['t', 't', 'a'],
}
const callsOf = (k, p = 'c') => names[k].map((n, i) => ({ args: `{"i":"${i}"}`, id: `${p}${i}`, name: n }))
export default {
  id: 'C05',
  traced: { quick: 99, thorough: 99 },
  dev: { quick: 99, thorough: 99 },
  bounds: {
    quick: 'all completion orders (no deviation bound) of 2-4 parallel calls (16 tool mixes, some calls alike in everything), up to 40 calls within 1 deviation, of 2 calls in the 10th to 13th step, of 2-3 calls with asynchronous pre-, post-hooks and validators, and of 2 consecutive parallel steps; 3 loop implementations',
    thorough: 'additionally 3 calls with all hooks asynchronous and 5 parallel calls',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    const mk = (turns, extra) => ({ messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [...turns, { text: 'end', usage: [1, 1, 2] }], ...extra })
    for (const proto of ['gen', 'stream', 'resp']) {
      for (const k of Object.keys(names)) yield mk([{ calls: callsOf(k), text: 'go' }], { proto })
      for (const k of ['aa', 'ab', 'ar', 'ga', ...(T ? ['aaa', 'bar'] : [])]) {
        for (const pre of ['void', 'args', 'throw', 'strresult']) yield mk([{ calls: callsOf(k), text: 'go' }], { pre: { async: true, k: pre }, proto })
        for (const post of ['void', 'replace', 'throw']) yield mk([{ calls: callsOf(k), text: 'go' }], { post: { async: true, k: post }, proto })
        if (k.length === 2) yield mk([{ calls: callsOf(k), text: 'go' }], { post: { async: true, k: 'obj' }, pre: { async: true, k: 'void' }, proto })
      }
      yield mk([{ calls: callsOf('aaa'), text: 'go' }], { post: { async: true, k: 'replace', only: 'c1' }, pre: { async: true, k: 'args', only: 'c0' }, proto })
      yield mk([{ calls: callsOf('aaa'), text: 'go' }], { post: { async: true, k: 'replace' }, proto })
      yield mk([{ calls: callsOf('aaa'), text: 'go' }], { pre: { async: true, k: 'name' }, proto })
      yield mk([{ calls: callsOf('ab'), text: '1' }, { calls: callsOf('ra', 'd'), text: '2' }], { proto })
      yield mk([{ calls: callsOf('aaa'), text: '1' }, { calls: callsOf('aa', 'd'), text: '2' }], { proto })
      yield mk([{ calls: callsOf('aa'), text: '1' }, { calls: callsOf('aa', 'd'), text: '2' }, { calls: callsOf('aa', 'e'), text: '3' }], { proto })
      // tools that work on their own copy of the same arguments
      for (const ns of [['m', 'm'], ['ms', 'ms', 'm'], ['m', 'ms', 'a']]) for (const args of ['{"list":[]}', '{"list":["x"],"o":{"k":1}}']) {
        const of = p => ns.map((name, i) => ({ args, id: `${p}${i}`, name }))
        yield mk([{ calls: of('c'), text: 'go' }], { proto })
        if (ns.length < 3) yield mk([{ calls: of('c'), text: 'go' }, { calls: of('d'), text: 'on' }], { proto })
      }
      // many at once
      for (const n of [9, 12, 20, 40]) yield mk([{ calls: Array.from({ length: n }, (_, i) => ({ args: `{"i":${i}}`, id: `m${i}`, name: 'aabrt'[i % 5] })), text: 'go' }], { dev: n > 12 ? 0 : 1, proto })
      // parallel calls late in a long run
      for (const at of [9, 11, 12]) for (const k of ['aa', 'ab', 'ra']) yield mk(Array.from({ length: at + 1 }, (_, i) => ({ calls: i === at ? callsOf(k, 'z') : callsOf('aa', `s${i}`).slice(0, 1).map(c => ({ ...c, name: 'x' })), text: `${i}` })), { dev: 2, proto })
      // duplicated ids, and calls alike in everything
      for (const id of ['same', '']) for (const k of ['aa', 'bb', 'ap']) yield mk([{ calls: callsOf(k).map(c => ({ ...c, args: '{}', id })), text: 'go' }], { proto })
      yield mk([{ calls: callsOf('aaa').map(c => ({ ...c, id: 'same' })), text: 'go' }], { proto })
      if (T) {
        yield mk([{ calls: [...callsOf('aaaa'), { args: '{}', id: 'c4', name: 'b' }], text: 'go' }], { proto })
        yield mk([{ calls: callsOf('aaa'), text: 'go' }], { post: { async: true, k: 'obj' }, pre: { async: true, k: 'args' }, proto })
        yield mk([{ calls: callsOf('bar'), text: 'go' }], { post: { async: true, k: 'obj' }, pre: { async: true, k: 'void' }, proto })
      }
    }
  },
  async execute(env, s) {
    const { proto } = s
    const m = simulate(s, proto)
    // per step: calls that must have begun before anything of the step completes
    let step = -1; let running = 0
    let obs
    const begun = new Set()
    const h = startCall(env, s, proto, {
      onExec: (r) => { running++; begun.add(`${step}:${r.id}:${obs.execs.length}`) },
      onExecEnd: () => { running-- },
      obs: obs = { clock: 0, events: [], execs: [], finish: [], post: [], pre: [], preps: [], requests: [], stepsSeen: [], stops: [], validations: [] },
    })
    env.onRequest = () => {
      if (running !== 0) env.fail('a request is sent while a tool is still running')
      if (env.actions.some(a => /^(?:tool|pre|post|validate):/.test(a.label))) env.fail('a request is sent before every tool call of the step has settled')
      step++
    }
    // when the first completion of a step is possible, every call of that step has begun
    let checkedFor = -1
    const orig = env.ctx.state.bind(env.ctx)
    env.ctx.state = (hash, enabled) => {
      if (enabled.some(a => /^(?:tool|pre|post|validate):/.test(a.label)) && checkedFor !== step) {
        checkedFor = step
        const calls = s.turns[step].calls
        const pend = enabled.filter(a => /^(?:tool|pre|validate|post):/.test(a.label)).length
        const sure = calls.filter((c) => {
          // calls that need an asynchronous completion of their own
          if (s.pre?.async && (s.pre.only === undefined || s.pre.only === c.id)) return true
          const t = TOOLS.find(x => x.name === c.name)
          return t && t.mode !== 'sync' && t.mode !== 'async' && t.kind !== 'throwErr'
        }).length
        if (pend < sure) env.fail(`only ${pend} of the ${sure} parallel tool calls of step ${step} were started before one of them has to finish`)
      }
      return orig(hash, enabled)
    }
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    env.check(h.obs.requests.length === m.requests.length, `expected ${m.requests.length} requests, saw ${h.obs.requests.length}`)
    env.check(sameTranscript(r.transcript, m.transcript), `transcript should be ${canon(m.transcript)}, was ${canon(r.transcript)}`)
    env.check(r.steps.length === m.steps.length, 'number of steps')
    m.steps.forEach((w, i) => env.check(sameStep(r.steps[i], w), `step ${i} should be ${canon(w)}, was ${canon(r.steps[i])}`))
    if (proto !== 'gen') {
      const ev = h.eventStream.items.filter(e => e.type === 'tool-result.done')
      const want = m.steps.flatMap(x => x.toolResults)
      env.check(ev.length === want.length && want.every((w, i) => { const { type, ...g } = ev[i]; return sameResult(g, w) }), `tool-result events should be ${canon(want)}, were ${canon(ev)}`)
    }
    return canon([r.steps, r.transcript.map(({ id, ...x }) => x)])
  },
}
