import { KINDS, optionsFor } from '../lib/kinds.mjs'
import { canon, sequences } from '../lib/util.mjs'

const STREAMS = { elements: ['elementStream', 'textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], partial: ['partialObjectStream', 'textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], resp: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], speechStream: ['fullStream'], stream: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], telemetryStream: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], transcriptionStream: ['fullStream', 'textStream'] }
const PROMISES = { elements: ['messages', 'steps', 'usage', 'totalUsage'], partial: ['messages', 'steps', 'usage', 'totalUsage'], resp: ['input', 'steps', 'usage', 'totalUsage'], speechStream: ['usage'], stream: ['messages', 'steps', 'usage', 'totalUsage'], telemetryStream: ['messages', 'steps', 'usage', 'totalUsage'], transcriptionStream: ['text'] }
const FN = { elements: 'streamObject', partial: 'streamObject', resp: 'responses', speechStream: 'streamSpeech', stream: 'streamText', telemetryStream: 'streamText', transcriptionStream: 'streamTranscription' }
const ASYNC = ['elements', 'partial', 'speechStream']
const TWO = ['gen', 'telemetryGen', 'genobj', 'stream', 'telemetryStream', 'resp']
const PLAIN = ['gen', 'telemetryGen', 'genobj', 'embed', 'embedMany', 'telemetryEmbed', 'telemetryEmbedMany', 'image', 'speech', 'transcription', 'models', 'model']
const kindOf = k => ({ telemetryEmbed: 'embed', telemetryEmbedMany: 'embedMany', telemetryGen: 'gen', telemetryStream: 'stream' })[k] ?? k
const enc = new TextEncoder()
const bytes = c => typeof c === 'string' ? enc.encode(c) : c
const halves = b => b.length < 2 ? [b] : [b.slice(0, b.length >> 1), b.slice(b.length >> 1)]

/** a body that hands out its chunks only on demand, each when the scheduler lets it, and knows how it was left */
function openBody(env, rec, chunks, error) {
  let i = 0; let ctrl
  rec.left = undefined
  const body = new ReadableStream({
    cancel() { rec.left ??= 'cancelled' },
    pull(c) {
      return env.defer(`${rec.n ?? 0}.${i}`).then(() => {
        if (rec.left) return
        if (i < chunks.length) c.enqueue(bytes(chunks[i++]))
        else if (error !== undefined) { rec.left = 'broken'; c.error(error) }
        else { rec.left = 'end'; c.close() }
      })
    },
    start(c) { ctrl = c },
  }, { highWaterMark: 0 })
  rec.abortBody = (reason) => { if (rec.left) return; rec.left = 'aborted'; ctrl.error(reason) }
  rec.body_ = true
  return body
}
const TAIL = [': later\n\n', ': later still\n\n', 'data: [DONE]\n\n', ': bye\n\n']

export default {
  id: 'C37',
  bundle: 'core',
  bundles: ['telemetry', 'providers', 'small'],
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '19 calls (traced ones too) x every way one of their requests can end (success with nothing or more after the logical end, 11 failing statuses of 8 content types, answers with right and wrong lengths and of 6 content types, malformed or error message in each chunk, body broken in each chunk, wrong content, throwing callbacks of each kind, invalid tool calls) x abort at any point x outputs all read, none read, one cancelled, all cancelled; retried statuses of the retrying fetch in sequences of up to 4; provider fetch wrappers x 5 statuses; chunk arrivals and completions within 1 deviation',
    thorough: '2 deviations',
  },
  * scenarios(tier) {
    for (const kind of [...Object.keys(STREAMS), ...PLAIN]) {
      const streaming = kind in STREAMS
      const ats = TWO.includes(kind) ? [0, 1] : kind === 'image' ? [0, 1, 2] : [0]
      const faults = [{ f: 'none' }, ...[400, 404, 429, 500].map(status => ({ f: 'status', status })), { f: 'statusEmpty' }, ...['text/html; charset=utf-8', 'text/plain', 'application/octet-stream', 'text/event-stream', 'application/problem+json'].map(type => ({ f: 'status', status: 502, type })), { f: 'status', status: 418, type: 'text/html', long: true }, { f: 'empty' }, { f: 'nobody' }, { f: 'reject' }, { f: 'malformed', i: 0 }, { f: 'broken', i: 0 }, { f: 'broken', i: 1 }]
      for (const status of [400, 401, 403, 404, 408, 409, 422, 429, 503]) for (const type of ['text/html; charset=utf-8', 'text/plain', '', 'application/json; charset=utf-8']) faults.push({ f: 'status', status, type })
      for (const status of [400, 404, 500]) for (const headers of [{ 'content-length': '0' }, { 'content-length': '26', 'retry-after': '1' }, { 'content-type': 'application/json', 'transfer-encoding': 'chunked' }]) faults.push({ f: 'status', headers, status })
      for (const f of ['empty', 'none']) for (const headers of [{ 'content-length': '0' }, { 'content-length': '99999', 'content-type': 'text/plain' }, {}]) faults.push({ f, headers })
      for (const type of ['', 'text/html; charset=utf-8', 'text/plain', 'text/event-stream', 'application/octet-stream', 'application/json; charset=utf-8']) for (const f of ['none', 'tail', 'malformed', 'broken', 'wrong']) if (streaming || f !== 'tail') faults.push({ f, headers: type ? { 'content-type': type } : {}, i: 1 })
      if (streaming) faults.push({ f: 'tail' }, { f: 'malformed', i: 1 }, { f: 'malformed', i: 2 }, { f: 'errmsg', i: 0 }, { f: 'errmsg', i: 2 }, { f: 'wrong' })
      else faults.push({ f: 'array' }, { f: 'object' }, { f: 'number' })
      for (const fault of faults) for (const at of ats) yield { at, fault, kind, take: 'all' }
      if (streaming) for (const fault of [{ f: 'none' }, { f: 'tail' }, { f: 'malformed', i: 1 }, { f: 'status', status: 500 }]) for (const at of ats) for (const take of ['none', 'cancelAll', ...STREAMS[kind].map(x => `cancel ${x}`), ...STREAMS[kind].map(x => `stop ${x}`)]) yield { at, fault, kind, take }
      for (const at of ats) yield { abort: true, at, fault: { f: 'none' }, kind, take: 'all' }
      const hooks = ['gen', 'telemetryGen', 'genobj'].includes(kind) ? ['onStepFinish', 'prepareStep0', 'prepareStep1', 'stopWhen', 'preBad', 'postBad'] : kind in STREAMS && !['speechStream', 'transcriptionStream'].includes(kind) ? ['onEvent0', 'onEvent3', 'onEvent9', 'onStepFinish', 'onFinish', 'prepareStep0', 'prepareStep1', 'stopWhen', 'preBad', 'postBad'] : []
      for (const hook of hooks) for (const fault of [{ f: 'none' }, ...(streaming ? [{ f: 'tail' }] : [])]) yield { at: -1, fault, hook, kind, take: 'all' }
    }
    for (const seq of sequences([503, 429, 200, 404], tier === 'thorough' ? 5 : 4, 1)) for (const retry of [1, 3]) yield { dev: 0, retry, seq }
    for (const wrapper of ['createTogetherAI', 'createFeatherless', 'createPlayer2', 'createAzure']) for (const status of [200, 400, 429, 500, 503]) for (const b of ['good', 'text']) yield { b, status, wrapper }
  },
  async execute(env, s) {
    const given = []
    const respond = (rec, status, headers, chunks, error) => { given.push(rec); return { raw: new Response(openBody(env, rec, chunks, error), { headers, status }) } }
    const released = (what) => {
      for (const rec of given) env.check(rec.left !== undefined, `the body of request ${given.indexOf(rec) + 1} (${rec.url ?? ''}) is neither read to its end nor cancelled although ${what} is over`)
    }
    if (s.seq) {
      let n = 0
      env.server = rec => respond(rec, s.seq[Math.min(n++, s.seq.length - 1)], {}, ['part', 'two'])
      const r = env.watch(env.instantiate(env.factories.small).createFetch({ retry: s.retry, retryDelay: 10 })('http://h/x'), 'xsfetch')
      await env.run()
      env.check(r.settled && r.ok, 'the call does not return a response')
      // the last one belongs to the caller, and is still whole
      const last = given.pop()
      env.check(last?.left === undefined, 'the response handed to the caller is used up already')
      released('the retry')
      const t = env.watch(r.value.text(), 'text')
      await env.run()
      env.expect(t.value, 'parttwo', 'the body of the response')
      return 'ok'
    }
    if (s.wrapper) {
      const lib = env.instantiate(env.factories.providers)
      env.server = rec => respond(rec, s.status, { 'content-type': 'application/json' }, s.b === 'text' ? ['some ', 'words'] : s.wrapper === 'createPlayer2' ? ['{"data":"AA', 'EC"}'] : s.wrapper === 'createAzure' ? ['{"data":[', ']}'] : ['[{"id":"a"', '}]'])
      const core = lib.core ?? env.lib
      const handle = s.wrapper === 'createPlayer2' ? lib.specialCreate.createPlayer2().speech('m') : s.wrapper === 'createAzure' ? (await lib.specialCreate.createAzure({ apiKey: 'k', resourceName: 'r' })).model() : lib.create[s.wrapper]('k').model()
      const r = env.watch(s.wrapper === 'createPlayer2' ? core.generateSpeech({ ...handle, input: 'x', voice: 'v' }) : core.listModels(handle), 'call')
      await env.run()
      env.check(r.settled, 'the call never settles')
      released('the call')
      return String(r.ok)
    }
    const ns = s.kind.startsWith('telemetry') ? env.instantiate(env.factories.telemetry).telemetry : env.lib
    const kind = kindOf(s.kind)
    const ctl = new AbortController()
    const thrown = new Error('gone')
    const server = KINDS[kind].server('A')
    const streaming = s.kind in STREAMS
    let n = 0
    const answer = (rec) => {
      const k = n++
      const ok = server(rec)
      const headers = s.fault.headers ?? ok.headers ?? (ok.json !== undefined ? { 'content-type': 'application/json' } : {})
      let chunks = ok.chunks ? ok.chunks : halves(ok.json !== undefined ? enc.encode(JSON.stringify(ok.json)) : ok.bytes)
      const { f, i, long, status, type } = s.fault
      if (k !== s.at && !(s.at < 0)) return respond(rec, 200, headers, chunks)
      switch (f) {
        case 'reject': throw thrown
        case 'nobody': return { nullBody: true }
        case 'status': return respond(rec, status, s.fault.headers ?? { ...(type === '' ? {} : { 'content-type': type ?? 'application/json' }), ...(long ? { 'content-length': '90000' } : {}) }, long ? ['<p>', 'x'.repeat(89993), '</p>'] : ['{"error":', '{"message":"no"}', '}'])
        case 'statusEmpty': return respond(rec, 500, {}, [])
        case 'empty': return respond(rec, 200, headers, [])
        case 'tail': return respond(rec, 200, headers, [...chunks, ...TAIL])
        case 'wrong': return respond(rec, 200, s.fault.headers ?? { 'content-type': 'text/html' }, ['<html>', 'sorry', '</html>'])
        case 'array': return respond(rec, 200, headers, ['[', ']'])
        case 'object': return respond(rec, 200, headers, ['{"x"', ':1}'])
        case 'number': return respond(rec, 200, headers, ['1', '2'])
        case 'malformed': return respond(rec, 200, headers, streaming ? [...chunks.slice(0, i), '\n\ndata: {oops\n\n', ...chunks.slice(i), ...TAIL] : ['{"oo', 'ps'])
        case 'errmsg': return respond(rec, 200, headers, [...chunks.slice(0, i), '\n\ndata: {"error":{"message":"x"}}\n\n', ...chunks.slice(i), ...TAIL])
        case 'broken': return respond(rec, 200, headers, chunks.slice(0, i), thrown)
        default: return respond(rec, 200, headers, chunks)
      }
    }
    const { o } = optionsFor(env, kind, 'A', { fetch: (i, init) => env.fetchWith(answer, i, init), ...(s.abort ? { abortSignal: ctl.signal } : {}) })
    if (s.hook) {
      const fail = () => { throw thrown }
      let events = 0
      if (s.hook.startsWith('onEvent')) o.onEvent = () => { if (events++ === Number(s.hook.at(-1))) fail() }
      else if (s.hook.startsWith('prepareStep')) o.prepareStep = ({ stepNumber }) => { if (stepNumber === Number(s.hook.at(-1))) fail(); return {} }
      else if (s.hook.endsWith('Bad')) o[s.hook === 'preBad' ? 'preToolCall' : 'postToolCall'] = c => ({ ...c, toolCallId: 'other' })
      else o[s.hook] = fail
    }
    if (s.abort) env.action('abort', () => ctl.abort(new Error('stop')), { optional: true })
    const watched = []
    if (!streaming) watched.push(KINDS[kind].start(env, ns, o, 'A').result)
    else {
      const cancel = (r, x) => env.action(`cancel ${x}`, () => { r[x].cancel('enough').catch(() => {}) })
      // reads one item, then loses interest
      const some = (r, x) => { const reader = r[x].getReader(); reader.read().then(() => reader.cancel('enough').catch(() => {}), () => {}) }
      const take = (r) => {
        for (const x of PROMISES[s.kind]) if (s.take === 'all') watched.push(env.watch(r[x], x)); else r[x].catch(() => {})
        for (const x of STREAMS[s.kind]) {
          if (s.take === 'cancelAll' || s.take === `cancel ${x}`) cancel(r, x)
          else if (s.take === `stop ${x}`) some(r, x)
          else if (s.take !== 'none') env.collect(r[x], x)
        }
      }
      if (ASYNC.includes(s.kind)) { const c = env.watch(ns[FN[s.kind]](o), 'call'); c.promise.then(take, () => {}); watched.push(c) }
      else take(ns[FN[s.kind]](o))
    }
    await env.run()
    for (let i = 0; i < 2; i++) await env.settle()
    for (const w of watched) env.check(w.settled, `the ${w.name} output never settles`)
    // streamed speech is read on demand only
    if (!(s.kind === 'speechStream' && s.take === 'none')) released('the call')
    return canon(given.map(rec => rec.left))
  },
}
