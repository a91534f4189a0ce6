import { outcome, sameStep, sameTranscript, simulate, startCall } from '../lib/chat.mjs'
import { MESSAGES, TOOLS } from '../lib/families.mjs'
import { canon, product, sequences } from '../lib/util.mjs'

const T = {
  a: k => ({ calls: [{ args: '{"x":"1"}', id: `a${k}`, name: 'a' }], text: null, usage: [1, 2, 3] }),
  b: k => ({ calls: [{ args: '{}', id: `b${k}`, name: 'b' }], finish: 'stop', text: 'thinking', usage: [1, 1, 2] }),
  ab: k => ({ calls: [{ args: '{}', id: `x${k}`, name: 'a' }, { args: '', id: `y${k}`, name: 'b' }], finish: 'length', text: '', usage: [2, 2, 4] }),
  bad: k => ({ calls: [{ args: '{oops', id: `e${k}`, name: 'a' }, { args: '{}', id: `u${k}`, name: 'ghost' }], text: null, usage: [0, 0, 0] }),
}
const F = { text: { text: 'done', usage: [1, 1, 2] }, odd: { finish: 'tool_calls', text: 'STOP', usage: [1, 1, 2] } }
const STOPS = [
  undefined, { k: 'never' }, { k: 'always' }, { k: 'count', n: 1 }, { k: 'count', n: 2 }, { k: 'count', n: 3 }, { k: 'exact', n: 2 },
  { k: 'tool', v: 'a' }, { k: 'tool', v: 'b' }, { k: 'tool', v: 'ghost' }, { k: 'tool', v: 'other' }, { k: 'finish', v: 'stop' }, { k: 'finish', v: 'tool_calls' }, { k: 'finish', v: 'tool-calls' },
  { k: 'text', v: 'think' }, { k: 'text', v: 'STOP' }, { k: 'input', n: 2 }, { k: 'input', n: 3 }, { k: 'input', n: 4 }, { k: 'input', n: 6 }, { k: 'prevtool', v: 'a' }, { k: 'prevtool', v: 'b' },
]
const FINISHES = ['content_filter', 'length', 'stop', 'function_call', 'tool_calls', 'tool-calls', 'other', '', 'eos']
export default {
  id: 'C03',
  traced: { quick: 0, thorough: 1 },
  dev: { quick: 0, thorough: 1 },
  bounds: {
    quick: 'all histories of up to 3 tool turns (4 shapes) and a final turn (2 shapes) x 22 stop conditions x 3 loop implementations; 12 values that are not booleans as what a condition gives; 9 finish reasons of turns with calls; canonical completion order',
    thorough: 'up to 4 tool turns, completion orders within 1 deviation',
  },
  * scenarios(tier) {
    for (const seq of sequences(Object.keys(T), tier === 'quick' ? 3 : 4)) {
      for (const f of Object.keys(F)) {
        for (const stop of STOPS) {
          if (stop === undefined && seq.length > 2) continue
          for (const proto of ['gen', 'stream', 'resp']) yield { messages: MESSAGES.user, proto, stop, tools: TOOLS, turns: [...seq.map((k, i) => T[k](i)), F[f]] }
        }
      }
    }
    // hooks that replace calls and results: conditions see the model's call for the current step, the executed ones for earlier steps
    for (const [pre, post] of product([[undefined, 'name', 'strresult', 'args'], [undefined, 'obj']])) for (const stop of STOPS) for (const proto of ['gen', 'stream', 'resp'])
      yield { messages: MESSAGES.history, post, pre, proto, stop, tools: TOOLS, turns: [T.a(0), T.ab(1), F.text], dev: 1 }
    // no tools offered although the model calls one; empty tool list; long runs
    for (const tools of [undefined, []]) for (const stop of STOPS.slice(0, 7)) for (const proto of ['gen', 'stream', 'resp']) yield { messages: MESSAGES.user, proto, stop, tools, turns: [T.a(0), T.ab(1), F.text] }
    // conditions in plain JavaScript may give anything
    for (const v of [1, 'x', 'false', '0', {}, [], -1, 0, '', null, undefined, NaN]) for (const proto of ['gen', 'stream', 'resp']) for (const k of Object.keys(T)) yield { dev: 0, messages: MESSAGES.user, proto, stop: { k: 'value', v }, tools: TOOLS, turns: [T[k](0), T[k](1), F.text] }
    // a turn with calls ends for any reason the server gives: it is executed and continued all the same
    for (const finish of FINISHES) for (const stop of [undefined, { k: 'never' }, { k: 'count', n: 2 }, { k: 'tool', v: 'a' }, { k: 'finish', v: finish ?? 'stop' }]) for (const proto of ['gen', 'stream', 'resp']) for (const at of [0, 1]) yield { dev: 0, messages: MESSAGES.user, proto, stop, tools: TOOLS, turns: [0, 1].map(i => i === at ? { ...T.ab(i), finish } : T.a(i)).concat(F.text) }
    for (const proto of ['gen', 'stream', 'resp']) for (const stop of [{ k: 'never' }, { k: 'count', n: 139 }]) yield { dev: 0, messages: MESSAGES.user, proto, stop, tools: TOOLS, turns: [...Array.from({ length: 140 }, (_, i) => ({ calls: [{ args: '{"x":"1"}', id: `a${i}`, name: 'a' }], text: null, usage: [1, 2, 3] })), F.text] }
    for (const n of [5, 8, 13]) for (const proto of ['gen', 'stream', 'resp']) for (const stop of [{ k: 'never' }, { k: 'count', n: 4 }, { k: 'count', n: n - 1 }, { k: 'exact', n }]) yield { dev: 0, messages: MESSAGES.user, proto, stop, tools: TOOLS, turns: [...Array.from({ length: n }, (_, i) => T[Object.keys(T)[i % 4]](i)), F.text] }
  },
  async execute(env, s) {
    const { proto } = s
    const m = simulate(s, proto)
    let inFlight = 0
    const h = startCall(env, s, proto, {
      onExec: () => { inFlight++ },
      onExecEnd: () => { inFlight-- },
      onStop: () => { if (inFlight) env.fail('the stop condition is evaluated while tools of the step are running') },
    })
    await env.run()
    const r = outcome(env, h)
    env.check(r.ok, `the call fails: ${canon(r.error)}`)
    const o = h.obs
    env.check(o.requests.length === m.requests.length, `expected ${m.requests.length} requests, saw ${o.requests.length}`)
    if (s.stop) {
      env.check(o.stops.length === m.stops.length, `the stop condition should be evaluated ${m.stops.length} times, was ${o.stops.length}`)
      m.stops.forEach((w, i) => {
        const g = o.stops[i]
        env.check(sameTranscript(g.input, w.input), `stop evaluation ${i}: transcript should be ${canon(w.input)}, was ${canon(g.input)}`)
        env.check(sameStep(g.step, w.step), `stop evaluation ${i}: step should be ${canon(w.step)}, was ${canon(g.step)}`)
        env.check(g.steps.length === w.steps.length && w.steps.every((x, k) => sameStep(g.steps[k], x)), `stop evaluation ${i}: steps should be ${canon(w.steps)}, were ${canon(g.steps)}`)
      })
    }
    env.expect(o.execs.map(e => [e.name, e.id]), m.execs.map(e => [e.name, e.id]), 'tools executed')
    env.check(r.steps.length === m.steps.length, `expected ${m.steps.length} steps, got ${r.steps.length}`)
    m.steps.forEach((w, i) => env.check(sameStep(r.steps[i], w), `step ${i} should be ${canon(w)}, was ${canon(r.steps[i])}`))
    env.expect(o.stepsSeen, r.steps, 'steps reported to onStepFinish')
    return canon([o.requests.length, r.steps])
  },
}
