import { newObs, outcome, sameResult, simulate, startCall } from '../lib/chat.mjs'
import { MESSAGES } from '../lib/families.mjs'
import { canon } from '../lib/util.mjs'

const ABORTED = name => `Tool "${name}" execution failed: This operation was aborted`
const TOOLS = [{ name: 'a' }, { kind: 'obj', name: 'b' }, { mode: 'sync', name: 's' }, { name: 'v', validate: 'valueAsync' }]
const c = (name, id) => ({ args: '{"x":"1"}', id, name })
const TURNS = {
  none: [{ text: 'hello world', usage: [1, 1, 2] }],
  one: [{ calls: [c('a', 'c1')], text: 'go' }, { text: 'end' }],
  two: [{ calls: [c('a', 'c1'), c('b', 'c2')], text: 'go' }, { text: 'end' }],
  sync: [{ calls: [c('s', 'c1'), c('a', 'c2'), c('s', 'c3')], text: 'go' }, { text: 'end' }],
  val: [{ calls: [c('v', 'c1'), c('a', 'c2')], text: '' }, { text: 'end' }],
  long: [...Array.from({ length: 12 }, (_, i) => ({ calls: [c(i % 3 ? 's' : 'a', `l${i}`)], text: `go${i}` })), { text: 'end' }],
  steps: [{ calls: [c('a', 'c1')], text: 'go' }, { calls: [c('b', 'c2'), c('s', 'c3')] }, { text: 'end' }],
}
const REASONS = { dflt: () => undefined, empty: () => '', err: () => new Error('enough'), no: () => false, str: () => 'stop now', zero: () => 0 }

export default {
  id: 'C06',
  traced: { quick: 1, thorough: 2 },
  dev: { quick: 2, thorough: 3 },
  bounds: {
    quick: 'abort at every scheduling point (network, body chunk, tool, hook, validator, prepare-step and callback completions) of every schedule within one further deviation, and inside every callback invocation (event callbacks that run while the response is read must end the call with the reason), for 7 turn families (runs of 13 steps included) x 3 loop implementations x hook combinations',
    thorough: 'two further deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const proto of ['gen', 'stream', 'resp']) {
      const mk = (k, extra) => ({ messages: MESSAGES.user, proto, stop: { k: 'never' }, tools: TOOLS, turns: TURNS[k], ...extra })
      for (const reason of Object.keys(REASONS)) {
        yield mk('one', { reason, dev: 1 })
        // a reason of any kind, in every callback
        for (const k of ['none', 'one']) for (const where of ['exec', 'stop', 'prep', 'stepFinish', 'request', ...(proto === 'gen' ? [] : ['event', 'execEnd'])]) for (let n = 0; n < (where === 'event' ? 14 : 2); n++) yield mk(k, { cb: { n, where }, dev: 0, prep: where === 'prep' ? {} : undefined, reason })
        for (const k of ['none', 'one']) yield mk(k, { before: true, dev: 0, reason })
      }
      yield mk('long', { dev: 1 })
      for (const where of ['exec', 'stop', 'prep', 'stepFinish', 'request']) for (const n of [8, 9, 10, 11]) yield mk('long', { cb: { n, where }, dev: 0, ...(where === 'prep' ? { prep: {} } : {}) })
      for (const k of Object.keys(TURNS)) if (k !== 'long') {
        yield mk(k, {})
        yield mk(k, { prep: { async: true, model: 'mm' } })
        if (proto !== 'gen') yield mk(k, { chunks: 3 })
        if (k !== 'none') {
          yield mk(k, { dev: T ? 3 : 1, pre: { async: true, k: 'void' } })
          yield mk(k, { dev: T ? 3 : 1, post: { async: true, k: 'void' } })
          yield mk(k, { dev: T ? 3 : 1, post: { async: true, k: 'void' }, pre: { async: true, k: 'void' } })
        }
        if (proto === 'gen') yield mk(k, { dev: 2, slowFinish: true })
        yield mk(k, { before: true, dev: 0 })
        yield mk(k, { before: true, dev: 1, prep: { async: true } })
        // inside callbacks
        for (const where of ['exec', 'pre', 'post', 'stop', 'prep', 'stepFinish', 'validate', 'request', ...(proto === 'gen' ? [] : ['event', 'execEnd'])]) {
          for (let n = 0; n < (where === 'event' ? (T ? 24 : 14) : 4); n++) {
            if (k === 'none' && n > 1 && where !== 'event') continue
            yield mk(k, { cb: { n, where }, dev: T ? 1 : 0, ...(where === 'pre' ? { pre: 'void' } : {}), ...(where === 'post' ? { post: 'void' } : {}), ...(where === 'prep' ? { prep: {} } : {}) })
            if (where === 'stop' || where === 'stepFinish') yield mk(k, { cb: { n, where }, dev: 0, stop: { k: 'count', n: 1 } })
          }
        }
      }
    }
  },
  async execute(env, s) {
    const { proto } = s
    const m = simulate(s, proto)
    const ctl = new AbortController()
    const reason = REASONS[s.reason ?? 'dflt']()
    const obs = newObs()
    const st = { phase: null }
    const open = () => obs.requests.some(r => !r.bodyDone && !r.cancelled)
    let h
    const pending = re => env.actions.some(a => re.test(a.label))
    const doAbort = (where) => {
      if (st.phase) return
      const done = h && (proto === 'gen' ? h.promise.settled : h.steps.settled)
      st.phase = where ?? (done ? 'after' : open() ? 'network' : pending(/^(?:tool|pre|post|validate):/) ? 'tools' : pending(/^prep:/) ? 'before' : pending(/^stepFinish:/) ? 'stepFinish' : 'other')
      st.execs = obs.execs.length
      st.requests = obs.requests.length
      st.step = obs.requests.length - 1
      st.preps = obs.preps.length
      env.log('ABORT', st.phase)
      if (reason === undefined) ctl.abort(); else ctl.abort(reason)
    }
    let count = 0
    // an event about a part that starts or grows is reported while the response is being read
    const reading = e => /\.(?:start|delta)$/.test(e?.type)
    const at = (where, e) => { if (s.cb?.where === where && count++ === s.cb.n) doAbort(reading(e) ? 'cb:reading' : `cb:${where}`) }
    if (s.before) doAbort('before')
    else if (!s.cb) env.action('abort', () => doAbort(), { optional: true })
    h = startCall(env, s, proto, {
      autoBody: !s.chunks,
      chunking: s.chunks ? (t) => { const n = Math.ceil(t.length / s.chunks); const o = []; for (let i = 0; i < t.length; i += n) o.push(t.slice(i, i + n)); return o } : undefined,
      obs,
      onEvent: e => at('event', e),
      onExec: () => at('exec'),
      onExecEnd: () => at('execEnd'),
      onPrep: () => at('prep'),
      onStepFinish: () => { at('stepFinish'); if (s.slowFinish) return env.defer(`stepFinish:${obs.stepsSeen.length}`) },
      onStop: () => at('stop'),
      patch: (o) => {
        if (o.preToolCall) { const f = o.preToolCall; o.preToolCall = (...a) => { at('pre'); return f(...a) } }
        if (o.postToolCall) { const f = o.postToolCall; o.postToolCall = (...a) => { at('post'); return f(...a) } }
        for (const t of o.tools) if (t.validate) { const f = t.validate; t.validate = (x) => { at('validate'); return f(x) } }
        const f = o.fetch
        o.fetch = (...a) => { const p = f(...a); at('request'); return p }
      },
      signal: ctl.signal,
    })
    await env.run()
    const r = outcome(env, h)
    for (const q of obs.requests) env.check(q.signal instanceof AbortSignal && (!st.phase || st.phase === 'after' || q.signal.aborted), 'a request does not carry the abort signal')
    for (const e of obs.execs) env.check(e.signal instanceof AbortSignal && e.signal.aborted === ctl.signal.aborted, `tool ${e.id} does not receive the abort signal`)
    if (!st.phase || st.phase === 'after') {
      env.check(r.ok, `the call fails: ${canon(r.error)}`)
      env.check(obs.requests.length === m.requests.length && r.steps.length === m.steps.length, 'a run without abort is cut short')
      return 'no abort'
    }
    env.check(obs.requests.length === st.requests, `a request was sent after the abort (${st.phase})`)
    env.check(obs.execs.length === st.execs, `a tool execution was started after the abort (${st.phase})`)
    const failed = !r.ok
    if (failed) env.check(r.error === ctl.signal.reason, `the call should fail with the abort reason, failed with ${canon(r.error)}`)
    const mustFail = st.phase === 'network' || st.phase === 'before' || st.phase === 'cb:prep' || st.phase === 'cb:reading' || st.phase === 'cb:request'
    const mustEnd = ['tools', 'cb:exec', 'cb:execEnd', 'cb:pre', 'cb:post', 'cb:validate'].includes(st.phase)
    const isStepFinish = st.phase === 'stepFinish' || st.phase === 'cb:stepFinish'
    if (mustFail) env.check(failed, `a call aborted in phase ${st.phase} must fail with the reason, but resolved`)
    if (isStepFinish) {
      const cont = st.step < m.steps.length - 1
      env.check(failed === cont, cont ? 'aborted before its next request, the call must fail with the reason' : 'aborted after its last request, the call must resolve')
    }
    if (mustEnd) {
      // execEnd of resp/stream may be followed by further reading of a still open body only when nothing continues
      env.check(!failed, `aborted during tool execution (${st.phase}), the call must end after that step, but failed with ${canon(r.error)}`)
      env.check(r.steps.length === st.step + 1, `expected ${st.step + 1} steps, got ${r.steps.length}`)
      const step = r.steps[st.step]; const w = m.steps[st.step]
      env.check(step.toolResults.length === w.toolCalls.length, `every call of the aborted step needs a result: ${canon(step.toolResults)}`)
      w.toolCalls.forEach((call, i) => {
        const ran = obs.execs.some(e => e.id === call.toolCallId)
        const g = step.toolResults[i]
        env.check(g.toolCallId === call.toolCallId && g.toolName === call.toolName, `result ${i} belongs to another call: ${canon(g)}`)
        if (ran) env.check(sameResult(g, w.toolResults[i]), `call ${i} was executed; its result should be ${canon(w.toolResults[i])}, was ${canon(g)}`)
        else env.check(g.isError === true && g.result === ABORTED(call.toolName), `call ${i} was not executed; its result should say it was aborted, was ${canon(g)}`)
      })
    }
    return canon([st.phase, failed, r.ok ? r.steps.length : 0])
  },
}
