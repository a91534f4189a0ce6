import { newObs, respEvents, respSse, sameStep, simulate, sseText, startCall, streamChunks } from '../lib/chat.mjs'
import { canon } from '../lib/util.mjs'

const TOOL = k => ({ calls: [{ args: '{"x":"1"}', id: `c${k}`, name: 'a' }, { args: '{}', id: `d${k}`, name: 'b' }], reasoning: 'r', text: `go${k}`, usage: [1, 2, 3] })
const LAST = { text: 'done', usage: [2, 2, 4] }
const ERRS = { err: () => new Error('the original failure'), num: () => 42, obj: () => ({ why: 'plain object' }), str: () => 'plain string failure', type: () => new TypeError('fetch failed'), undef: () => undefined, nul: () => null }
const STREAMS = ['text', 'reasoning', 'full', 'eventStream']

const pieces = (proto, t, n) => (proto === 'stream' ? sseText(streamChunks(t)) : respSse(respEvents(t, n))).split(/(?<=\n\n)/)

export default {
  id: 'C12',
  traced: { quick: 1, thorough: 1 },
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '20 failure kinds (12 of them also with the signal aborted at that very moment) x every step of 1-3 step histories and the last ones of 13 x every position in the body or callback sequence x 2 APIs x 4 onFinish behaviours x thrown values (errors, strings, numbers, objects, null, undefined); completion and cancellation orders within 1 deviation',
    thorough: 'the same with 2 deviations',
  },
  * scenarios() {
    for (const proto of ['stream', 'resp']) {
      for (const steps of [1, 2, 3, 13]) {
        for (let at = 0; at < steps; at++) if (steps < 4 || at > 8) {
          const turns = Array.from({ length: steps }, (_, i) => i < steps - 1 ? TOOL(i) : LAST)
          const base = { at, messages: [{ content: 'hi', role: 'user' }], proto, stop: { k: 'never' }, tools: [{ mode: steps === 2 ? undefined : 'sync', name: 'a' }, { kind: 'obj', mode: 'sync', name: 'b' }], turns }
          // what follows the completed event of a continuing Responses step is no longer read
          const len = pieces(proto, turns[at], at).length - (proto === 'resp' && at < steps - 1 ? 2 : 0)
          for (const f of steps > 3 ? ['ok'] : ['ok', 'throw', 'reject', 'slow']) {
            const b = { ...base, ...(steps > 3 ? { dev: 0 } : {}), finish: f }
            for (const e of Object.keys(ERRS)) if (f === 'ok' || e === 'err' || e === 'nul') {
              yield { ...b, e, fail: 'fetch' }
              yield { ...b, e, fail: 'stop' }
              yield { ...b, e, fail: 'prep' }
              yield { ...b, e, fail: 'prepReject' }
              yield { ...b, e, fail: 'stepFinish' }
            }
            for (const status of [400, 404, 429, 500]) yield { ...b, fail: 'status', status }
            yield { ...b, fail: 'nobody' }
            for (let pos = 0; pos <= len; pos++) for (const e of ['err', 'str', 'nul']) if (e === 'err' || f === 'ok') yield { ...b, e, fail: 'body', pos }
            for (let pos = 0; pos < len; pos++) {
              if (f === 'throw' && pos > 2) continue
              yield { ...b, fail: 'malformed', pos }
              yield { ...b, fail: 'errchunk', pos }
            }
            for (let pos = 0; pos < (f === 'ok' ? 16 : 3); pos++) yield { ...b, e: pos % 2 ? 'str' : 'err', fail: 'event', pos }
            yield { ...b, fail: 'cancelled', pos: 2 }
            // the signal is aborted at the moment something else fails
            for (const e of ['err', 'nul', 'str']) for (const fail of ['fetch', 'stop', 'prep', 'stepFinish', 'bodyLate']) if (e === 'err' || f === 'ok') yield { ...b, aborted: true, e, fail }
            for (const fail of ['status', 'nobody', 'dataLate', 'errLate']) yield { ...b, aborted: true, fail, status: 500 }
            for (let pos = 0; pos < (f === 'ok' ? 12 : 2); pos++) yield { ...b, aborted: true, e: 'err', fail: 'event', pos }
            if (at < steps - 1) {
              yield { ...b, fail: 'noName' }
              yield { ...b, fail: 'noArgs' }
              yield { ...b, fail: 'hookId', pre: { k: 'badId', only: `d${at}` } }
              yield { ...b, fail: 'hookId', post: { async: true, k: 'badId', only: `c${at}` } }
            }
            if (at === 0) yield { ...b, fail: 'none' }
          }
        }
      }
    }
  },
  async execute(env, s) {
    const { proto } = s
    const thrown = s.e ? ERRS[s.e]() : undefined
    const turns = s.turns.map(t => ({ ...t }))
    if (s.fail === 'noName' || s.fail === 'noArgs') {
      turns[s.at].calls = turns[s.at].calls.map((c, i) => i === 1 ? (s.fail === 'noName' ? { args: c.args, id: c.id } : { id: c.id, name: c.name }) : c)
      // a streamed call always gains (empty) arguments; only a missing name can fail there
      if (s.fail === 'noArgs' && proto === 'stream') return 'n/a'
    }
    const obs = newObs()
    const finishErr = new Error('finish failed')
    const ctl = s.aborted ? new AbortController() : undefined
    const reason = new Error('enough')
    const abort = () => ctl?.abort(reason)
    let n = 0; let events = 0; let finishedAt = -1; let lateCallbacks = 0; let finishDone = false; let expectStatus
    const answer = () => {
      const k = n++
      const p = pieces(proto, turns[k], k)
      const hit = k === s.at
      const headers = { 'content-type': 'text/event-stream' }
      if (hit && (s.fail === 'fetch' || s.fail === 'status' || s.fail === 'nobody')) abort()
      // a transport that takes no notice of the signal
      if (hit && /Late$/.test(s.fail)) {
        let i = 0
        const last = { bodyLate: undefined, dataLate: 'data: {"oops\n\n', errLate: 'data: {"error":{"message":"overloaded"}}\n\n' }[s.fail]
        return { raw: new Response(new ReadableStream({ pull: (c) => { if (i < 2) { c.enqueue(new TextEncoder().encode(p[i++])); return } abort(); if (last === undefined) c.error(thrown); else { c.enqueue(new TextEncoder().encode(last)); c.close() } } }, { highWaterMark: 0 }), { headers }) }
      }
      if (hit && s.fail === 'fetch') throw thrown
      if (hit && s.fail === 'status') { expectStatus = s.status; return { auto: true, status: s.status, text: 'nope' } }
      if (hit && s.fail === 'nobody') return { nullBody: true }
      if (hit && s.fail === 'body') return { auto: false, chunks: p.slice(0, s.pos), error: thrown, headers }
      if (hit && s.fail === 'malformed') return { auto: false, chunks: [...p.slice(0, s.pos), 'data: {"oops\n\n', ...p.slice(s.pos)], headers }
      if (hit && s.fail === 'errchunk') return { auto: false, chunks: [...p.slice(0, s.pos), 'data: {"error":{"message":"overloaded"}}\n\n', ...p.slice(s.pos)], headers }
      if (hit && s.fail === 'cancelled') return { auto: false, chunks: [...p.slice(0, s.pos), 'data: {"oops\n\n'], headers }
      return { auto: true, chunks: p, headers }
    }
    const late = (w) => { if (finishedAt >= 0) lateCallbacks++ }
    const stepNo = () => obs.requests.length - 1
    const opts = { ...s, turns, fail: undefined, ...(s.fail === 'prep' || s.fail === 'prepReject' ? { prep: { async: s.fail === 'prepReject' } } : {}) }
    const stepsAtFinish = []
    const h = startCall(env, opts, proto, {
      obs,
      onEvent: () => { late(); if (s.fail === 'event' && events++ === s.pos) { abort(); throw thrown } },
      onExec: () => late(),
      onFinish: () => {
        finishedAt = obs.clock++
        stepsAtFinish.push(obs.stepRefs?.length ?? 0)
        if (s.finish === 'throw') throw finishErr
        if (s.finish === 'reject') return env.defer('finish', () => { finishDone = true; throw finishErr })
        if (s.finish === 'slow') return env.defer('finish', () => { finishDone = true })
      },
      onPrep: (c) => { late(); if (s.fail === 'prep' && c.stepNumber === s.at) { abort(); throw thrown } },
      onStepFinish: () => { late(); if (s.fail === 'stepFinish' && obs.stepsSeen.length - 1 === s.at) { abort(); throw thrown } },
      onStop: () => { late(); if (s.fail === 'stop' && obs.stops.length - 1 === s.at) { abort(); throw thrown } },
      patch: (o) => {
        if (s.fail === 'prepReject') { const p = o.prepareStep; o.prepareStep = async (c) => { const r = await p(c); if (c.stepNumber === s.at) throw thrown; return r } }
      },
      server: answer,
      signal: ctl?.signal,
    })
    if (s.fail === 'cancelled') for (const k of ['full', 'eventStream']) env.action(`cancel:${k}`, () => { h[k].cancelled = true; h[k].reader.cancel('bye') }, { optional: true })
    // nothing may settle while the finish callback is still running
    const orig = env.ctx.state.bind(env.ctx)
    env.ctx.state = (hash, en) => {
      if ((s.finish === 'slow' || s.finish === 'reject') && finishedAt >= 0 && !finishDone) for (const k of ['transcript', 'steps', 'usage', 'totalUsage']) env.check(!h[k].settled, `the ${k} promise settles before onFinish has finished`)
      return orig(hash, en)
    }
    await env.run()
    const promises = ['transcript', 'steps', 'usage', 'totalUsage']
    for (const k of promises) env.check(h[k].settled, `the ${k} promise never settles (${s.fail})`)
    for (const k of STREAMS) env.check(h[k].cancelled || h[k].done || h[k].failed, `the ${k} stream never ends (${s.fail})`)
    env.check(obs.finish.length === 1, `onFinish ran ${obs.finish.length} times`)
    env.check(lateCallbacks === 0, `${lateCallbacks} callbacks or tools ran after onFinish`)
    const m = simulate({ ...s, turns: s.turns, pre: undefined, post: undefined }, proto)
    // did anything fail before onFinish?
    let failed = s.fail !== 'none'
    if (s.fail === 'event') failed = events > s.pos
    const finishFails = s.finish === 'throw' || s.finish === 'reject'
    if (!failed && !finishFails) {
      for (const k of promises) env.check(h[k].ok, `the ${k} promise fails with ${canon(h[k].error)} although nothing failed`)
      for (const k of STREAMS) env.check(h[k].done, `the ${k} stream fails although nothing failed`)
      env.check(sameStep(obs.finish[0], m.steps.at(-1)), `onFinish should get the last step ${canon(m.steps.at(-1))}, got ${canon(obs.finish[0])}`)
      return 'ok'
    }
    const err = h.steps.error
    for (const k of promises) env.check(!h[k].ok && h[k].error === err, `the ${k} promise ${h[k].ok ? 'resolves' : `fails with ${canon(h[k].error)} instead of ${canon(err)}`} (${s.fail})`)
    for (const k of STREAMS) if (!h[k].cancelled) env.check(h[k].failed && h[k].error === err, `the ${k} stream ${h[k].failed ? `fails with ${canon(h[k].error)} instead of ${canon(err)}` : 'ends normally'} (${s.fail})`)
    if (s.aborted) env.check(err !== undefined, 'no error is reported')
    else if (!failed) env.check(err === finishErr, `the run should fail with the error of onFinish, failed with ${canon(err)}`)
    else if (s.e) env.check(err === thrown, `the run should fail with the original ${canon(thrown)}, failed with ${canon(err)}`)
    else if (expectStatus) env.check(err?.name === 'APICallError' && err.statusCode === expectStatus, `status ${expectStatus} should be reported, got ${canon(err)}`)
    else if (s.fail === 'malformed' || s.fail === 'cancelled') env.check(err?.name === 'JSONParseError', `a malformed chunk should be reported, got ${canon(err)}`)
    else if (s.fail === 'errchunk') env.check(err?.name === 'RemoteAPIError', `an error chunk should be reported, got ${canon(err)}`)
    else env.check(err instanceof Error && err !== finishErr, `an error should be reported, got ${canon(err)}`)
    // onFinish receives the last step that completed (was reported to onStepFinish)
    const lastSeen = obs.stepsSeen.at(-1)
    env.check(canon(obs.finish[0]) === canon(lastSeen), `onFinish should get the last completed step ${canon(lastSeen)}, got ${canon(obs.finish[0])}`)
    // how far the run may have come
    if (failed && s.fail !== 'event') {
      const done = s.fail === 'stepFinish' ? s.at + 1 : undefined
      if (done !== undefined) env.check(obs.stepsSeen.length === done, `${obs.stepsSeen.length} steps were completed instead of ${done}`)
      else if (['fetch', 'status', 'nobody', 'prep', 'prepReject', 'stop', 'hookId', 'noName', 'noArgs'].includes(s.fail)) env.check(obs.stepsSeen.length === s.at, `${obs.stepsSeen.length} steps were completed instead of ${s.at}`)
      const reqs = s.fail === 'prep' || s.fail === 'prepReject' ? s.at : s.at + 1
      // a damaged tail after the last event of a step comes too late to stop it
      if (!['body', 'malformed', 'errchunk', 'cancelled'].includes(s.fail)) env.check(obs.requests.length === reqs, `${obs.requests.length} requests were sent instead of ${reqs}`)
    }
    return canon([s.fail, obs.stepsSeen.length, err])
  },
}
