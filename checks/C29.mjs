import { b64 } from '../lib/streams.mjs'
import { canon, sequences } from '../lib/util.mjs'

const SPEECH = {
  a: { audio: b64([1, 2, 3]), type: 'speech.audio.delta' }, b: { audio: b64([255, 0, 128, 7, 254]), type: 'speech.audio.delta' }, empty: { audio: '', type: 'speech.audio.delta' }, extra: { audio: b64([9]), seq: 3, type: 'speech.audio.delta' },
  done: { type: 'speech.audio.done' }, nullUsage: { type: 'speech.audio.done', usage: null }, usage: { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }, zero: { type: 'speech.audio.done', usage: { input_tokens: 0, output_tokens: 0, total_tokens: 0, vendor: 1 } },
  unknown: { audio: b64([4]), type: 'speech.other' },
}
const TEXT = {
  a: { delta: 'Grüß ', type: 'transcript.text.delta' }, b: { delta: '日本', logprobs: [], type: 'transcript.text.delta' }, empty: { delta: '', type: 'transcript.text.delta' }, newline: { delta: '\n\n😀e\u0301', type: 'transcript.text.delta' },
  done: { text: 'another reading', type: 'transcript.text.done' }, unknown: { delta: 'x', type: 'transcript.other' },
}
const BAD = { badAudio: { audio: '***', type: 'speech.audio.delta' }, error: { error: { message: 'overloaded' } }, malformed: '{oops', noAudio: { type: 'speech.audio.delta' } }
const line = e => `data: ${typeof e === 'string' ? e : JSON.stringify(e)}\n\n`
const ERRORS = { err: () => new Error('gone'), nul: () => null, str: () => 'gone' }

export default {
  id: 'C29',
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'all event sequences of up to 3 over 9 speech and 6 transcription events, with and without an end marker; each of 4 bad events, a body error, an abort or a cancellation at every position of sequences of up to 3; statuses, missing bodies and rejected requests; sequences of 30 deltas; slow readers; completion, abort and cancellation schedules within 1 deviation',
    thorough: 'sequences of up to 4; 2 deviations',
  },
  * scenarios(tier) {
    const deep = tier === 'thorough'
    for (const api of ['speech', 'transcription']) {
      const E = Object.keys(api === 'speech' ? SPEECH : TEXT)
      const single = seq => seq.filter(k => ['usage', 'zero'].includes(k)).length < 2
      for (const seq of sequences(E, deep ? 4 : 3, 0)) if (single(seq)) for (const end of [true, false]) yield { api, dev: 0, end, seq }
      for (const seq of sequences(E, 2, 0)) if (single(seq)) yield { api, seq, slow: true }
      for (const n of [30, 200]) yield { api, dev: 0, end: true, seq: Array.from({ length: n }, (_, i) => ['a', 'b', 'empty'][i % 3]) }
      for (const seq of sequences(E.filter(k => k !== 'empty' && k !== 'extra'), deep ? 3 : 2, 0)) if (single(seq)) {
        for (let at = 0; at <= seq.length; at++) {
          for (const bad of Object.keys(BAD)) if (api === 'speech' || !bad.endsWith('Audio')) yield { api, at, bad, dev: 0, seq }
          for (const e of Object.keys(ERRORS)) yield { api, at, dev: 0, e, fail: 'body', seq }
        }
        yield { abort: true, api, seq }
        for (const cancel of api === 'speech' ? [['full']] : [['full'], ['text'], ['full', 'text']]) yield { api, cancel, seq }
        // a failure after an output was cancelled still reaches the others
        if (api === 'transcription') for (const cancel of [['full'], ['text']]) yield { api, at: seq.length, bad: 'malformed', cancel, seq }
      }
      for (const status of [400, 401, 404, 429, 500, 503]) for (const body of ['text', 'json', 'empty']) yield { api, body, fail: 'status', seq: [], status }
      yield { api, fail: 'nobody', seq: [] }
      for (const e of Object.keys(ERRORS)) yield { api, e, fail: 'fetch', seq: [] }
      yield { abort: 'before', api, seq: ['a'] }
    }
  },
  async execute(env, s) {
    const speech = s.api === 'speech'
    const events = s.seq.map(k => (speech ? SPEECH : TEXT)[k])
    const lines = events.map(line)
    if (s.bad) lines.splice(s.at, 0, line(BAD[s.bad]))
    if (s.end) lines.push('data: [DONE]\n\n')
    const thrown = s.e ? ERRORS[s.e]() : undefined
    const ctl = new AbortController()
    const reason = new Error('user abort')
    if (s.abort === 'before') ctl.abort(reason)
    const answer = () => {
      if (s.fail === 'fetch') throw thrown
      if (s.fail === 'status') return { status: s.status, ...(s.body === 'text' ? { text: 'nope' } : s.body === 'json' ? { json: { error: 'x' } } : { nullBody: true }) }
      if (s.fail === 'nobody') return { nullBody: true }
      return { auto: s.dev === 0 && s.fail !== 'body', chunks: s.fail === 'body' ? lines.slice(0, s.at) : lines, headers: { 'content-type': 'text/event-stream' }, ...(s.fail === 'body' ? { error: thrown } : {}) }
    }
    const o = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetchWith(answer, i, init), model: 'm', ...(s.abort ? { abortSignal: ctl.signal } : {}) }
    const out = {}
    const streams = {}
    const take = (r) => {
      streams.full = speech ? r.fullStream : r.fullStream
      if (!speech) streams.text = r.textStream
      const name = speech ? 'usage' : 'text'
      out.promise = env.watch(r[name], `${name} promise`)
      for (const k in streams) {
        if (s.slow) env.action(`read:${k}`, () => { out[k] = env.collect(streams[k], k, x => x instanceof Uint8Array ? [...x] : x) })
        else out[k] = env.collect(streams[k], k, x => x instanceof Uint8Array ? [...x] : x)
        if (s.cancel?.includes(k)) env.action(`cancel:${k}`, () => { out[k].cancelled = true; out[k].had = out[k].items.length; out[k].reader.cancel('enough') }, { optional: true })
      }
    }
    let call
    if (speech) { call = env.watch(env.lib.streamSpeech({ ...o, input: 'say', voice: 'v' }), 'speech'); call.promise.then(take, () => {}) }
    else take(env.lib.streamTranscription({ ...o, file: new Blob(['x']) }))
    let aborted = s.abort === 'before'
    if (s.abort === true) env.action('abort', () => { aborted = true; ctl.abort(reason) }, { optional: true })
    await env.run()
    // ---- what had to arrive
    const deltas = events.filter(e => e.type.endsWith('.delta'))
    const want = { full: speech ? deltas.map(e => [...Buffer.from(e.audio, 'base64')]) : deltas, text: speech ? undefined : deltas.map(e => e.delta) }
    const flat = (k, xs) => k === 'full' && speech ? xs.flat() : k === 'text' ? xs.join('') : xs
    const failing = s.bad || s.fail
    if (speech && (s.fail === 'status' || s.fail === 'nobody' || s.fail === 'fetch' || !out.promise)) {
      env.check(call.settled && !call.ok, `the call ${call.settled ? 'succeeds' : 'never settles'}`)
      judge(call.error)
      return 'rejected'
    }
    env.check(out.promise.settled, `the ${speech ? 'usage' : 'text'} promise never settles`)
    for (const k in streams) if (!out[k].cancelled) env.check(out[k].done || out[k].failed, `the ${k} stream never ends`)
    const cut = Object.keys(streams).some(k => out[k].cancelled)
    if (failing) {
      for (const k in streams) {
        if (out[k].cancelled) continue
        if (s.fail === 'nobody' || !s.bad && !s.fail) continue
        env.check(out[k].failed, `the ${k} stream ends normally`)
        judge(out[k].error)
        prefix(k)
      }
      const usageKnown = speech && events.slice(0, s.at).some(e => e.usage)
      if (usageKnown && out.promise.ok) env.expect(out.promise.value, usageOf(events), 'usage')
      else { env.check(!out.promise.ok, `the ${speech ? 'usage' : 'text'} promise resolves to ${canon(out.promise.value)} although the stream failed`); if (!(speech && cut)) judge(out.promise.error) }
      return 'failed'
    }
    if (aborted && Object.keys(streams).some(k => out[k].failed)) {
      for (const k in streams) { env.check(out[k].failed && out[k].error === reason, `after the abort the ${k} stream ${out[k].failed ? `fails with ${canon(out[k].error)}` : 'ends normally'}`); prefix(k) }
      if (!(speech && out.promise.ok)) env.check(!out.promise.ok && out.promise.error === reason, `after the abort the promise ${out.promise.ok ? `resolves to ${canon(out.promise.value)}` : `fails with ${canon(out.promise.error)}`}`)
      else env.check(events.some(e => e.usage), `after the abort the usage resolves to ${canon(out.promise.value)}`)
      return 'aborted'
    }
    for (const k in streams) {
      if (out[k].cancelled) { prefix(k); continue }
      env.check(out[k].done, `the ${k} stream fails with ${canon(out[k].error)}`)
      env.expect(flat(k, out[k].items), flat(k, want[k]), `the ${k} stream`)
    }
    if (speech) {
      if (!cut) { env.check(out.promise.ok, `the usage promise fails with ${canon(out.promise.error)}`); env.expect(out.promise.value, usageOf(events), 'usage') }
    }
    else {
      env.check(out.promise.ok, `the text promise fails with ${canon(out.promise.error)}`)
      env.expect(out.promise.value, deltas.map(e => e.delta).join(''), 'the full text')
    }
    return canon([out.promise.ok, deltas.length])

    function prefix(k) {
      const got = flat(k, out[k].items); const all = flat(k, want[k])
      const ok = typeof got === 'string' ? all.startsWith(got) : got.every((x, i) => canon(x) === canon(all[i]))
      env.check(ok && got.length <= all.length, `what the ${k} stream delivered is not a beginning of ${canon(all)}: ${canon(got)}`)
    }
    function judge(e) {
      if (aborted) { env.check(e === reason, `an abort should be reported, got ${canon(e)}`); return }
      if (s.e) env.check(e === thrown, `the original ${canon(thrown)} should be reported, got ${canon(e)}`)
      else if (s.fail === 'status') env.check(e?.name === 'APICallError' && e.statusCode === s.status, `status ${s.status} should be reported, got ${e}`)
      else if (s.bad === 'malformed') env.check(e?.name === 'JSONParseError', `malformed data should be reported, got ${e}`)
      else if (s.bad === 'error') env.check(e?.name === 'RemoteAPIError', `the server's error should be reported, got ${e}`)
      else env.check(e instanceof Error, `an error should be reported, got ${canon(e)}`)
    }
  },
}
const usageOf = (events) => { const u = events.find(e => e.usage)?.usage; return u ? { inputTokens: u.input_tokens, outputTokens: u.output_tokens, totalTokens: u.total_tokens } : undefined }
