import { canon, sequences } from '../lib/util.mjs'

const VECTORS = { a: [0.1, -0.2, 3], b: [1e-7, 12345.678, -0], c: [], d: Array.from({ length: 300 }, (_, i) => i / 7), s: 'AACAPwAAAEA=' }
const USAGES = { extra: { prompt_tokens: 3, total_tokens: 3, vendor: { x: 1 } }, none: undefined, null: null, usual: { prompt_tokens: 1, total_tokens: 2 }, zero: { prompt_tokens: 0, total_tokens: 0 } }
const INPUTS = { dup: ['x', 'x'], empty: [], emptyString: '', emptyStrings: ['', ''], many: ['a', 'b', 'c'], one: 'hello', single: ['solo'], uni: ['é😀', '\u0000\n'], unis: '日本 😀' }
const MODELS = { extra: { created: 1, id: 'a/b', object: 'model', owned_by: 'x', pricing: { in: '0.1' } }, min: { id: 'm' }, odd: { created: 0, id: 'ü 😀', object: 'model', owned_by: '' }, plain: { created: 12, id: 'gpt', object: 'model', owned_by: 'o' } }
const TRANSCRIPTS = { empty: { text: '' }, plain: { text: 'Grüß Gott' }, verbose: { duration: 1.5, language: 'german', segments: [{ avg_logprob: -0.1, end: 1, id: 0, start: 0, text: 'a', tokens: [1, 2] }], text: 'a' }, padded: { text: ' \n Hello\u00a0 \n', segments: [{ id: 0, text: ' Hello' }] }, lone: { text: 'a\ud83d \u0000' }, words: { duration: 2, language: 'x', text: 'a b', words: [{ end: 1, start: 0, word: 'a' }] } }
const AUDIO = { all: Array.from({ length: 256 }, (_, i) => i), big: Array.from({ length: 20000 }, (_, i) => (i * 7) % 256), empty: [], json: [...new TextEncoder().encode('{"audio":"AAEC"}')], one: [0], text: [239, 187, 191, 104, 105], wav: [82, 73, 70, 70, 0, 255, 254] }
const TYPES = ['', 'application/json', 'application/json; charset=utf-8', 'text/html', 'text/plain; charset=iso-8859-1', 'text/event-stream', 'audio/wav', 'application/octet-stream', 'multipart/form-data; boundary=x']
const FILES = { blob: () => new Blob(['abc'], { type: 'audio/wav' }), empty: () => new Blob([]), file: () => new File([new Uint8Array([1, 2, 255])], 'x.mp3', { type: 'audio/mpeg' }) }
const cuts = (bytes, n) => { if (n === 1) return [bytes]; const k = Math.max(1, Math.ceil(bytes.length / n)); const out = []; for (let i = 0; i < bytes.length; i += k) out.push(bytes.slice(i, i + k)); return out.length ? out : [bytes] }

export default {
  id: 'C31',
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'embeddings: all lists of up to 4 over 5 vectors x 5 usages x index orders ascending, descending and missing x 9 inputs; model lists of up to 3 over 4 records and each record retrieved; speech of 7 contents and transcriptions of 6 shapes x 3 files; 9 content types; each body whole and in 2, 3 and 7 pieces (and byte by byte when small); 1 deviation',
    thorough: 'vector lists of up to 5, model lists of up to 4; 2 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    const V = Object.keys(VECTORS)
    for (const seq of sequences(V, T ? 5 : 4, 1)) for (const index of ['up', 'down', 'none']) {
      yield { api: 'embedMany', dev: 0, index, input: 'many', seq, usage: 'usual' }
      if (seq.length < 3) for (const usage of Object.keys(USAGES)) { yield { api: 'embedMany', dev: 0, index, input: 'many', seq, usage }; yield { api: 'embed', dev: 0, index, input: 'one', seq, usage } }
    }
    yield { api: 'embedMany', dev: 0, index: 'up', input: 'empty', seq: [], usage: 'usual' }
    for (const input of Object.keys(INPUTS)) for (const seq of sequences(['a', 'b'], 3, 1)) yield { api: Array.isArray(INPUTS[input]) ? 'embedMany' : 'embed', dev: 0, index: 'up', input, seq, usage: 'usual' }
    for (const seq of sequences(Object.keys(MODELS), T ? 4 : 3, 0)) yield { api: 'models', dev: 0, seq }
    for (const m of Object.keys(MODELS)) for (const name of ['gpt', 'org/model:free', 'a.b-c_d']) yield { api: 'model', dev: 0, m, name }
    for (const audio of Object.keys(AUDIO)) for (const n of [1, 2, 3, 7]) yield { api: 'speech', audio, n }
    for (const t of Object.keys(TRANSCRIPTS)) for (const file of Object.keys(FILES)) yield { api: 'transcription', dev: 0, file, t }
    // whatever a server says the answer is
    for (const type of TYPES) for (const api of ['embedMany', 'embed', 'models', 'model', 'transcription', 'speech']) for (const n of api === 'speech' ? [1, 3] : [undefined]) for (const audio of api === 'speech' ? [...Object.keys(AUDIO), 'json', 'text'] : [undefined]) yield { api, audio, dev: 0, file: 'blob', index: 'up', input: api === 'embed' ? 'one' : 'many', m: 'odd', n, name: 'x', seq: api === 'models' ? ['odd', 'plain'] : ['a', 'b'], t: 'verbose', type, usage: 'usual' }
    for (const n of [2, 3, 7, 1000]) for (const k of ['embedMany', 'embed', 'models', 'model', 'transcription']) yield { api: k, file: 'blob', index: 'up', input: k === 'embed' ? 'one' : 'many', m: 'odd', n, name: 'x', seq: k === 'models' ? ['odd', 'plain'] : ['a', 'b'], t: 'plain', usage: 'usual', ...(n > 10 ? { dev: 0 } : {}) }
  },
  async execute(env, s) {
    let body
    if (s.api.startsWith('embed')) body = { data: s.seq.map((k, i) => ({ embedding: VECTORS[k], ...(s.index === 'none' ? {} : { index: s.index === 'up' ? i : s.seq.length - 1 - i }), object: 'embedding' })), model: 'm', object: 'list', ...(s.usage === 'none' ? {} : { usage: USAGES[s.usage] }) }
    else if (s.api === 'models') body = { data: s.seq.map(k => MODELS[k]), object: 'list' }
    else if (s.api === 'model') body = MODELS[s.m]
    else if (s.api === 'transcription') body = TRANSCRIPTS[s.t]
    const bytes = s.api === 'speech' ? new Uint8Array(AUDIO[s.audio]) : new TextEncoder().encode(JSON.stringify(body))
    env.server = () => ({ auto: !s.n, chunks: cuts(bytes, s.n ?? 1), headers: s.type === '' ? {} : { 'content-type': s.type ?? (s.api === 'speech' ? 'audio/mpeg' : 'application/json') } })
    const o = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetch(i, init), model: s.name ?? 'm' }
    const L = env.lib
    const input = INPUTS[s.input]
    const before = canon(input)
    const start = { embed: () => L.embed({ ...o, input }), embedMany: () => L.embedMany({ ...o, input }), model: () => L.retrieveModel(o), models: () => L.listModels(o), speech: () => L.generateSpeech({ ...o, input: 'say', voice: 'v' }), transcription: () => L.generateTranscription({ ...o, file: FILES[s.file]() }) }[s.api]
    const call = env.watch(start(), s.api)
    await env.run()
    env.check(call.settled, 'the call never settles')
    env.check(call.ok, `the call fails with ${canon(call.error)}`)
    const v = call.value
    const wire = body === undefined ? undefined : JSON.parse(JSON.stringify(body))
    if (s.api === 'embedMany') {
      env.expect(v.embeddings, wire.data.map(d => d.embedding), 'the vectors')
      env.expect(v.input, JSON.parse(before === undefined ? 'null' : JSON.stringify(input)), 'the input')
      env.expect(v.usage, wire.usage, 'the usage')
    }
    else if (s.api === 'embed') {
      env.expect(v.embedding, wire.data[0].embedding, 'the vector')
      env.expect(v.input, input, 'the input')
      env.expect(v.usage, wire.usage, 'the usage')
    }
    else if (s.api === 'models') env.expect(v, wire.data, 'the model list')
    else if (s.api === 'speech') {
      env.check(v instanceof ArrayBuffer || v?.byteLength !== undefined, `the audio is ${canon(v)}`)
      env.check(Buffer.from(v).equals(Buffer.from(bytes)), `the audio has ${v.byteLength} bytes instead of the ${bytes.length} that were sent, or differs`)
    }
    else env.expect(v, wire, 'the record')
    env.check(canon(input) === before, 'the input given was changed')
    env.check(env.requests.length === 1, `${env.requests.length} requests were made`)
    const r = env.requests[0]
    if (s.api.startsWith('embed')) env.expect(r.json?.input, input, 'the input sent')
    if (s.api === 'model') env.check(r.url === `http://srv/v1/models/${s.name}`, `the model is asked for at ${r.url}`)
    return s.api
  },
}
