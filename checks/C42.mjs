import { reference } from '../lib/env.mjs'
import { streamChunks, sseText, respEvents, respSse } from '../lib/chat.mjs'
import { KINDS, optionsFor, viewOf } from '../lib/kinds.mjs'
import { canon } from '../lib/util.mjs'

/** what is inside and outside the tags of a text */
const split = (text, tag) => {
  const parts = text.split(new RegExp(`<${tag}>|</${tag}>`))
  return { inside: parts.filter((x, i) => i % 2 && x).join('\n'), outside: parts.filter((x, i) => i % 2 === 0 && x).join('\n') }
}
const TEXTS = { long: '<think>one two\nthree </think>Four five,\nsix <b>é😀</b> <think>seven</think> <thin end', open: 'a b <think>c d', padded: ' \n  lead<think>\t in </think>\n tail  ', plain: 'The quick brown fox\njumps', tagged: '<think>hm hm</think>yes no' }
const SHAPES = {
  'reason': (L, s) => L.extractReasoningStream(s, { tagName: 'think' }),
  'reason, smooth': (L, s) => { const r = L.extractReasoningStream(s, { tagName: 'think' }); return { reasoningStream: r.reasoningStream.pipeThrough(L.smoothStream({ chunking: 'line' })), textStream: r.textStream.pipeThrough(L.smoothStream({ delay: 5 })) } },
  'smooth': (L, s) => ({ textStream: s.pipeThrough(L.smoothStream()) }),
  'smooth, reason': (L, s) => L.extractReasoningStream(s.pipeThrough(L.smoothStream({ chunking: /[^]/, delay: 1 })), { tagName: 'think' }),
  'smooth, smooth': (L, s) => ({ textStream: s.pipeThrough(L.smoothStream({ chunking: 'word' })).pipeThrough(L.smoothStream({ chunking: /[^]{3}/ })) }),
}
const REASONS = { nul: () => null, obj: () => Object.freeze({ why: 1 }), str: () => 'stop', undef: () => undefined, zero: () => 0 }
const ENDS = ['ok', 'body', 'api', 'status', 'bad']
const APIS = ['stream', 'tstream', 'resp']
const TRACED = { tEmbed: 'embed', tEmbedMany: 'embedMany', tGen: 'gen', tStream: 'stream' }
const NAMES = [...Object.keys(KINDS), ...Object.keys(TRACED)]
const STREAMED = ['stream', 'tStream', 'resp', 'elements', 'partial', 'speechStream', 'transcriptionStream']
const REQUESTS = { image: 3, gen: 2, genobj: 2, resp: 2, stream: 2, tGen: 2, tStream: 2 }
const sse = { 'content-type': 'text/event-stream' }
const enc = new TextEncoder()
const libOf = (env, kind) => kind in TRACED || kind === 'tstream' ? env.instantiate(env.factories.telemetry).telemetry : env.lib

export default {
  id: 'C42',
  bundle: 'core',
  bundles: ['small', 'telemetry'],
  block: 8,
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '3 streaming calls x 5 pipelines of reasoning extraction and smoothing x 5 texts (white space at both ends among them) x delta sizes 1/2/5/whole x 5 endings (normal, broken body, API error, status, malformed data), abort and cancellation of a pipeline end at every point (within 1 deviation); the retrying fetch under each of the 15 calls and 4 traced ones: every request failing 0-3 times with 4 statuses against budgets of 0-2, aborts during the waits; simulated streams as bodies of the 7 streaming calls in pieces of 3 sizes',
    thorough: '2 deviations',
  },
  * scenarios() {
    for (const api of APIS) for (const shape of Object.keys(SHAPES)) {
      for (const text of Object.keys(TEXTS)) for (const size of [1, 2, 5, 999]) yield { api, dev: 0, end: 'ok', shape, size, text }
      for (const text of ['long', 'open']) for (const end of ENDS.slice(1)) for (const size of [2, 5]) yield { api, dev: 0, end, shape, size, text }
      for (const text of ['tagged', 'open']) for (const then of ['abort', 'cancel']) yield { api, end: 'ok', live: true, shape, size: 6, text, then }
      for (const why of Object.keys(REASONS)) { yield { api, dev: 0, end: 'body', shape, size: 5, text: 'long', why }; yield { api, dev: 1, end: 'ok', live: true, shape, size: 6, text: 'tagged', then: 'abort', why } }
    }
    for (const kind of NAMES) for (let at = 0; at < (REQUESTS[kind] ?? 1); at++) {
      for (const status of [408, 429, 503, 404]) for (const times of [0, 1, 2, 3]) for (const retry of [0, 1, 2]) yield { at, dev: 0, kind, retry, status, times }
      for (const times of [1, 2]) yield { at, kind, retry: 3, status: 503, then: 'abort', times }
      yield { at, dev: 0, kind, reject: true, retry: 2, times: 1 }
    }
    for (const kind of STREAMED) for (const size of [1, 7, 64, 9999]) for (const delay of [0, 10]) yield { delay, dev: 0, kind, simulated: size }
  },
  async execute(env, s) {
    env.horizon = 1e6
    const small = env.instantiate(env.factories.small)
    if (s.shape) return await pipeline(env, small, s)
    const kind = TRACED[s.kind] ?? s.kind
    const ref = await reference(env, `C42:${s.kind}`, async (e) => {
      const { o } = optionsFor(e, kind, 'A', { fetch: (i, init) => e.fetchWith(KINDS[kind].server('A'), i, init) })
      const h = KINDS[kind].start(e, libOf(e, s.kind), o, 'A')
      await e.run()
      return structuredClone(viewOf(h))
    })
    if (s.simulated) {
      const bytesOf = xs => new Uint8Array(xs.flatMap(x => [...(typeof x === 'string' ? enc.encode(x) : x)]))
      const { o } = optionsFor(env, kind, 'A', { fetch: (i, init) => env.fetchWith((rec) => {
        const body = bytesOf(KINDS[kind].server('A')(rec).chunks)
        const chunks = []
        for (let k = 0; k < body.length; k += s.simulated) chunks.push(body.slice(k, k + s.simulated))
        return { raw: new Response(small.simulateReadableStream({ chunkDelay: s.delay, chunks, initialDelay: 3 * s.delay }), { headers: sse }) }
      }, i, init) })
      const h = KINDS[kind].start(env, libOf(env, s.kind), o, 'A')
      await env.run(); await env.settle()
      const view = viewOf(h)
      env.expect(view, ref, 'the outcome over a simulated body')
      return 'simulated'
    }
    // ---- the retrying fetch as the fetch of a call
    const ctl = new AbortController()
    const failures = []
    let asked = 0; let left = s.times; let state
    env.server = (rec) => {
      // the failing request is the one before which `at` others were answered, of parallel downloads a particular one
      if ((kind === 'image' && s.at ? rec.url.endsWith(`/${s.at}`) : asked === s.at) && left > 0) {
        left--
        failures.push(rec)
        if (s.then && left === s.times - 1) env.action('abort', () => { state = { tools: env.actions.some(a => a.label.startsWith('tool:')), settled: h && Object.values(viewOf(h)).every(v => v !== 'pending' && v?.end !== 'open') }; ctl.abort(reason) }, { optional: true })
        if (s.reject) return { reject: down }
        return { raw: new Response(`no ${failures.length}`, { status: s.status }) }
      }
      asked++
      return KINDS[kind].server('A')(rec)
    }
    const down = new TypeError('fetch failed'); const signal = s.then ? ctl.signal : undefined; const reason = new Error('enough')
    const f = small.createFetch({ retry: s.retry, retryDelay: 50 })
    const { o } = optionsFor(env, kind, 'A', { fetch: f, ...(s.then ? { abortSignal: ctl.signal } : {}) })
    const h = KINDS[kind].start(env, libOf(env, s.kind), o, 'A')
    await env.run(); await env.settle()
    const view = viewOf(h)
    for (const [k, v] of Object.entries(view)) env.check(v !== 'pending' && v?.end !== 'open', `the ${k} output never settles`)
    if (s.then && kind !== 'image') for (const r of env.requests) env.check(r.signal === ctl.signal || r.signal?.aborted === ctl.signal.aborted, 'a request does not follow the abort signal')
    for (const r of failures) env.check(canon([r.url, r.method, r.headers, r.text]) === canon([failures[0].url, failures[0].method, failures[0].headers, failures[0].text]), 'a retried request differs from the first')
    // a tool that is running when the call is aborted ends the run with that step
    if (state?.tools) return 'during a tool'
    if (state && !state.settled) {
      const errors = Object.values(h).filter(r => r && typeof r === 'object' && (r.failed || r.settled && !r.ok)).map(r => r.error)
      for (const e of errors) env.check(e === reason, `an output fails with ${canon(e)} instead of the abort reason`)
      if (!errors.length) env.expect(view, ref, 'the outcome of a call that does not fail')
      return 'aborted'
    }
    const retried = !s.reject && s.status !== 404
    const wins = s.times === 0 || retried && s.times <= s.retry
    env.expect(failures.length, wins ? s.times : retried ? s.retry + 1 : 1, 'the number of failed attempts')
    if (wins) { env.expect(view, ref, 'the outcome with retries'); return 'retried' }
    const errors = Object.values(h).filter(r => r && typeof r === 'object' && (r.failed || r.settled && !r.ok)).map(r => r.error)
    env.check(errors.length > 0, 'a call whose request failed does not fail')
    for (const e of errors) {
      if (s.reject) env.check(e === down, `an output fails with ${canon(e)} instead of the network error`)
      else {
        env.check(e instanceof Error && e.response?.status === s.status, `an output fails with ${canon(e)} instead of the status ${s.status}`)
        env.check(e.responseBody === `no ${failures.length}`, `the error carries the body ${canon(e.responseBody)} instead of that of the last attempt`)
      }
    }
    return 'failed'
  },
}

async function pipeline(env, small, s) {
  const text = TEXTS[s.text]
  const turn = { split: s.size, text, usage: [1, 2, 3] }
  const broken = { api: true, bad: true, body: true, status: true }[s.end]
  let body = s.api === 'resp' ? respSse(respEvents(turn, 0)) : sseText(streamChunks(turn))
  const msgs = body.split(/(?<=\n\n)/)
  const k = msgs.length >> 1
  if (s.end === 'bad') msgs.splice(k, 0, 'data: {"oops\n\n')
  if (s.end === 'api') msgs.splice(k, 0, s.api === 'resp' ? 'data: {"type":"error","error":{"code":"x","message":"overloaded"}}\n\n' : 'data: {"error":{"message":"overloaded"}}\n\n')
  const down = s.why ? REASONS[s.why]() : new Error('connection lost')
  const third = Math.ceil(msgs.length / 3)
  const chunks = s.live ? [0, 1, 2].map(i => msgs.slice(i * third, (i + 1) * third).join('')) : msgs
  const server = () => s.end === 'status' ? { auto: true, status: 503, text: 'down' } : { auto: !s.live, chunks: s.end === 'body' ? msgs.slice(0, k) : chunks, ...(s.end === 'body' ? { error: down } : {}), headers: sse }
  const ctl = new AbortController()
  const kind = s.api === 'resp' ? 'resp' : 'stream'
  const { o } = optionsFor(env, kind, 'A', { abortSignal: ctl.signal, fetch: (i, init) => env.fetchWith(server, i, init) })
  const r = (libOf(env, s.api))[kind === 'resp' ? 'responses' : 'streamText'](o)
  const steps = env.watch(r.steps, 'steps'); const usage = env.watch(r.totalUsage, 'totalUsage')
  const full = env.collect(r.fullStream, 'full'); const events = env.collect(r.eventStream, 'events')
  const outs = SHAPES[s.shape](small, r.textStream)
  const recs = {}
  const victim = s.then === 'cancel' ? 'textStream' : undefined
  for (const n of Object.keys(outs)) if (n !== victim) recs[n] = env.collect(outs[n], n)
  let done; let cancelled
  let reason = s.why ? REASONS[s.why]() : new Error('enough')
  if (s.then === 'abort') env.action('abort', () => { done = { over: steps.settled }; ctl.abort(reason); reason = ctl.signal.reason }, { optional: true })
  if (victim) env.action('cancel', () => { cancelled = env.watch(outs.textStream.cancel('enough'), 'cancel') }, { optional: true })
  await env.run(); await env.settle()
  env.check(steps.settled && usage.settled, 'the run does not settle')
  for (const x of [full, events, ...Object.values(recs)]) env.check(x.done || x.failed, `the ${x.name} stream does not end`)
  const want = 'reasoningStream' in outs ? { reasoningStream: split(text, 'think').inside, textStream: split(text, 'think').outside } : { textStream: text }
  for (const [n, x] of Object.entries(recs)) {
    const got = x.items.join('')
    if (x.done) env.expect(got, want[n], `the content at the end of the ${n}`)
    else env.check(want[n].startsWith(got), `the ${n} brings ${canon(got)}, no beginning of ${canon(want[n])}`)
  }
  if (broken || done && !done.over && !steps.ok) {
    env.check(!steps.ok, 'the run does not fail')
    for (const x of [...Object.values(recs), full, events]) env.check(x.failed && Object.is(x.error, steps.error), `the ${x.name} stream ends with ${canon(x.error)} instead of the run's error ${canon(steps.error)}`)
    if (s.end === 'body') env.check(Object.is(steps.error, down), `the run fails with ${canon(steps.error)} instead of ${canon(down)}`)
    if (s.then === 'abort') env.check(Object.is(steps.error, reason), 'the error is not the abort reason')
    return 'failed'
  }
  env.check(steps.ok && usage.ok && full.done && events.done, `the run fails: ${canon(steps.error ?? full.error ?? events.error)}`)
  env.expect(steps.value.map(x => x.text), [text], 'the text of the run')
  for (const x of Object.values(recs)) env.check(x.done, `the ${x.name} stream fails: ${canon(x.error)}`)
  if (cancelled) env.check(cancelled.ok, 'the cancellation fails')
  return cancelled ? 'cancelled' : 'whole'
}
