import { outcome, startCall, thenable } from '../lib/chat.mjs'
import { FINAL_TURNS, longRun, MESSAGES, TOOL_TURNS, TOOLS } from '../lib/families.mjs'
import { canon, sequences } from '../lib/util.mjs'

const ASYNC = [{ name: 'a', validate: 'valueAsync' }, { kind: 'rejectErr', name: 'b' }, { kind: 'parts', name: 'p', validate: 'value' }, { mode: 'async', name: 'other' }]
const HOOKS = { async: { post: { async: true, k: 'replace' }, pre: { async: true, k: 'void' } }, none: {}, then: { post: { async: 'then', k: 'replace' }, pre: { async: 'then', k: 'void' } }, result: { post: 'replace', pre: 'strresult' }, sync: { post: 'void', pre: 'args' } }

export default {
  id: 'C40',
  bundle: 'core',
  bundles: ['telemetry'],
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'five loop implementations (plain and traced generateText and streamText, Responses) x all histories of up to 2 tool turns (7 shapes) and a final turn x 4 hook sets x synchronous and asynchronous prepare, step-finish and finish callbacks (also with another library\'s promises) x 3 stop conditions, runs of 13 steps, failing last requests; completion orders within 1 deviation',
    thorough: '2 deviations, 3 tool turns',
  },
  * scenarios(tier) {
    const T = Object.keys(TOOL_TURNS)
    for (const api of ['gen', 'stream', 'resp', 'tgen', 'tstream']) {
      const mk = (seq, f, extra) => ({ api, messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), FINAL_TURNS[f]], ...extra })
      for (const seq of sequences(T, tier === 'thorough' ? 3 : 2)) for (const prep of [undefined, {}, { async: true }]) yield mk(seq, 'text', { dev: seq.length > 1 && tier === 'quick' ? 0 : undefined, prep })
      for (const from of T.keys()) for (const later of [[], ['stepFinish', 'finish']]) yield { ...mk([], 'text', { dev: 0, later, prep: { async: true } }), turns: longRun(12, from) }
      for (const k of T) for (const hooks of Object.keys(HOOKS).filter(h => h !== 'then')) for (const later of [[], ['stepFinish'], ['finish'], ['stepFinish', 'finish', 'event']]) for (const prep of [undefined, { async: true }]) yield mk([k], 'text', { dev: (hooks === 'async' || !prep) && tier === 'quick' ? 0 : undefined, hooks, later, prep, tools: ASYNC })
      for (const k of T) for (const later of [['stepFinish'], ['finish'], ['stepFinish', 'finish', 'event']]) yield mk([k], 'text', { hooks: 'then', later, prep: { async: 'then' }, then: true, tools: ASYNC.map(t => t.mode ? t : { ...t, mode: 'then' }) })
      for (const seq of sequences(['one', 'two', 'three'], 2, 1)) for (const stop of [undefined, { k: 'count', n: 2 }, { k: 'tool', v: 'b' }]) for (const f of ['text', 'reasoning', 'length']) yield mk(seq, f, { later: ['stepFinish', 'finish'], prep: {}, stop })
      for (const seq of sequences(['one', 'three'], 2)) for (const answer of [{ auto: true, status: 500, text: 'down' }, { auto: true, nullBody: true }, { reject: 'offline' }]) yield { ...mk(seq, 'text', { later: ['stepFinish'], prep: {} }), turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), { answer }] }
    }
  },
  async execute(env, s) {
    const proto = s.api.replace(/^t(gen|stream)$/, '$1')
    const lib = proto === s.api ? env.lib : env.instantiate(env.factories.telemetry).telemetry
    const marks = []
    const n = {}
    const mark = (what, extra) => { const m = { at: marks.length, n: n[what] ?? 0, what, ...extra }; n[what] = m.n + 1; marks.push(m); env.log('mark', what); return m }
    const end = (m) => { m.end = marks.length; marks.push({ at: m.end, what: `${m.what}.end` }) }
    const wrap = (f, what, of = () => ({})) => (...a) => {
      const m = mark(what, of(...a))
      let r
      try { r = f(...a) } catch (e) { end(m); throw e }
      if (typeof r?.then !== 'function') { end(m); return r }
      if (!(r instanceof Promise)) { let ok; let no; const p = new Promise((a, b) => { ok = a; no = b }); r.then((v) => { end(m); ok(v) }, (e) => { end(m); no(e) }); return thenable(p) }
      return r.then((v) => { end(m); return v }, (e) => { end(m); throw e })
    }
    const later = (f, what) => s.later?.includes(what) ? (...a) => { f(...a); return s.then ? thenable(env.defer(what)) : env.defer(what) } : f
    const h = startCall(env, { ...s, ...HOOKS[s.hooks ?? 'none'] }, proto, {
      lib,
      patch: (o) => {
        for (const [k, what] of [['prepareStep', 'prep'], ['stopWhen', 'stop']]) if (o[k]) o[k] = wrap(o[k], what)
        if (o.preToolCall) o.preToolCall = wrap(o.preToolCall, 'pre', c => ({ id: c.toolCallId, tool: true }))
        if (o.postToolCall) o.postToolCall = wrap(o.postToolCall, 'post', c => ({ id: c.toolCallId, tool: true }))
        for (const t of o.tools ?? []) {
          t.execute = wrap(t.execute, 'exec', (_, x) => ({ id: x.toolCallId, tool: true }))
          if (t.validate) t.validate = wrap(t.validate, 'validate', () => ({ tool: true }))
        }
        o.onStepFinish = wrap(later(o.onStepFinish, 'stepFinish'), 'stepFinish')
        if (o.onFinish) o.onFinish = wrap(later(o.onFinish, 'finish'), 'finish')
        if (o.onEvent) o.onEvent = wrap(later(o.onEvent, 'event'), 'event', e => ({ type: e.type }))
        o.fetch = (f => (...a) => { mark('fetch'); return f(...a) })(o.fetch)
      },
    })
    const settled = (p, name) => p.then(() => mark('settled', { name }), () => mark('settled', { name }))
    if (proto === 'gen') settled(h.promise.promise, 'the call')
    else for (const k of ['transcript', 'steps', 'usage', 'totalUsage']) settled(h[k].promise, `the ${k} promise`)
    await env.run()
    const r = outcome(env, h)
    // ---- one order for all callbacks
    const of = what => marks.filter(m => m.what === what)
    const steps = of('fetch').length
    const before = (a, b, what) => { if (a && b) env.check((a.end ?? a.at) < b.at, `${what}: ${marks.map(m => m.what).join(' ')}`) }
    const phases = ['prep', 'fetch', 'stop', 'stepFinish']
    for (const p of phases) env.check(of(p).length <= steps + (r.ok ? 0 : 1), `${of(p).length} ${p} callbacks for ${steps} requests`)
    for (let i = 0; i < steps; i++) {
      const at = p => of(p)[i]
      before(at('prep'), at('fetch'), `the request of step ${i} does not wait for its preparation`)
      before(at('fetch'), at('stop'), `the stop condition of step ${i} is evaluated before its request`)
      before(at('stop'), at('stepFinish'), `step ${i} is finished before its stop condition is evaluated`)
      if (at('stepFinish')) {
        const done = proto === 'gen' ? at('stepFinish') : { at: at('stepFinish').at }
        before(done, of('prep')[i + 1] ?? of('fetch')[i + 1], `step ${i + 1} begins before step ${i} is finished`)
      }
    }
    const stepOf = at => of('fetch').filter(m => m.at < at).length - 1
    for (const m of marks.filter(m => m.tool)) {
      const i = stepOf(m.at)
      env.check(i >= 0, `a tool is used (${m.what}) before the first request`)
      if (of('stop').length) before(of('stop')[i], m, `a tool is used (${m.what}) before the stop condition of step ${i} is evaluated`)
      before(m, of('stepFinish')[i], `step ${i} is finished before its tools are (${m.what} ${m.id})`)
    }
    for (const x of of('exec')) {
      before(of('pre').find(m => m.id === x.id && stepOf(m.at) === stepOf(x.at)), x, `the tool of call ${x.id} runs before its pre-call hook is done`)
      before(x, of('post').find(m => m.id === x.id && stepOf(m.at) === stepOf(x.at)), `the post-call hook of ${x.id} runs before its tool is done`)
    }
    if (proto !== 'gen') {
      for (const e of of('event')) {
        const i = stepOf(e.at)
        env.check(i >= 0, `an event (${e.type}) comes before the first request`)
        if (!['tool-result.done', 'step.done'].includes(e.type)) continue
        if (e.type === 'step.done') before(of('stepFinish')[i] && { at: of('stepFinish')[i].at }, e, `the step-done event of step ${i} comes before the step is finished`)
        for (const m of marks.filter(m => m.tool && stepOf(m.at) === i)) before(m, e, `the event ${e.type} of step ${i} comes before its tools are done`)
      }
      // the finish callback closes the run
      env.check(of('finish').length === 1, `${of('finish').length} finish callbacks`)
      const fin = of('finish')[0]
      env.expect(h.obs.finish[0], h.obs.stepsSeen.at(-1), 'the step given to onFinish (against the last finished one)')
      for (const m of marks) if (m.at > fin.at && !m.what.endsWith('.end') && m.what !== 'settled') env.fail(`after the finish callback came ${m.what}: ${marks.map(x => x.what).join(' ')}`)
      for (const m of of('settled')) before(fin, m, `${m.name} settles before the finish callback is done`)
    }
    else for (const m of of('settled')) for (const x of marks) if (x.at > m.at) env.fail(`${x.what} comes after the call has settled`)
    return canon([r.ok, marks.map(m => m.what)])
  },
}
