// Every API of the library behind one driver: build the options, start a call, summarise everything it delivered.
// Servers are stateless (they answer from the request alone), so options objects may be shared between calls.
import { genBody, respEvents, respSse, sseText, streamChunks } from './chat.mjs'
import { b64 } from './streams.mjs'

export const schema = (validate, json = { properties: { n: { type: 'number' } }, required: ['n'], type: 'object' }) => ({ '~standard': { jsonSchema: { input: () => json, output: () => json }, validate, vendor: 'check', version: 1 } })
const okSchema = () => schema(v => ({ value: v }))
const err = e => e instanceof Error ? [e.name, e.message] : ['thrown', e]
const view = (h) => {
  const out = {}
  for (const k in h) {
    const r = h[k]
    if (r && typeof r === 'object' && 'settled' in r) out[k] = r.settled ? (r.ok ? { ok: r.map ? r.map(r.value) : r.value } : { err: err(r.error) }) : 'pending'
    else if (r && typeof r === 'object' && 'items' in r) out[k] = { end: r.done ? 'done' : r.failed ? err(r.error) : 'open', items: r.items }
    else if (r !== undefined) out[k] = r
  }
  return out
}
const textTurns = tag => [
  { calls: [{ args: `{"x":"${tag}1"}`, id: `${tag}c1`, name: 'a' }, { args: '{}', id: `${tag}c2`, name: 'a' }], reasoning: `think ${tag}`, text: `go ${tag}`, usage: [1, 2, 3] },
  { text: `done ${tag}`, usage: [2, 2, 4] },
]
const cut = (t, n = 4) => { const p = t.split(/(?<=\n\n)/); const k = Math.ceil(p.length / n); const out = []; for (let i = 0; i < p.length; i += k) out.push(p.slice(i, i + k).join('')); return out }
// cut in the middle of messages and characters
const rough = (t, n = 4) => { const b = new TextEncoder().encode(t); const k = Math.ceil(b.length / n); const out = []; for (let i = 0; i < b.length; i += k) out.push(b.slice(i, i + k)); return out }
const sse = { 'content-type': 'text/event-stream' }
const noId = xs => Array.isArray(xs) ? xs.map(({ id, ...x }) => x) : xs

const loopOptions = (env, tag, slow) => ({
  messages: [{ content: `hi ${tag}`, role: 'user' }],
  onStepFinish: () => {},
  prepareStep: () => ({}),
  stopWhen: ({ steps }) => steps.length >= 3,
  temperature: 0.5,
  toolChoice: 'auto',
  tools: [{ execute: (input, opts) => {
    // the options are used again when the tool has waited
    const produce = () => `res ${JSON.stringify(input)} ${opts.toolCallId} ${JSON.stringify(opts.messages.map(m => m.content ?? m.type))}`
    return slow ? env.defer(`tool:${opts.toolCallId}`, produce) : produce()
  }, function: { description: 'd', name: 'a', parameters: { properties: { x: { type: 'string' } }, type: 'object' } }, type: 'function' }, { execute: () => 'other', function: { name: 'b', parameters: {} }, type: 'function' }],
})
const turnIndex = (rec, key) => rec.json[key].filter(m => m.role === 'assistant' || m.type === 'function_call').length > 0 ? 1 : 0
const streamOf = (env, tag, r, names) => Object.fromEntries(names.map(n => [n, env.collect(r[n], `${tag}${n}`, x => x instanceof Uint8Array ? [...x] : structuredClone(x))]))

/** kind -> {server(tag)(rec), options(env, tag), start(env, lib, opts, tag)} */
export const KINDS = {
  gen: {
    options: (env, tag) => loopOptions(env, tag, true),
    server: tag => rec => ({ auto: true, json: genBody(textTurns(tag)[turnIndex(rec, 'messages')]) }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.generateText(o), `${tag}gen`) }),
  },
  stream: {
    options: (env, tag) => ({ ...loopOptions(env, tag, false), onEvent: () => {}, onFinish: () => {}, streamOptions: { includeUsage: true } }),
    server: tag => rec => ({ chunks: rough(sseText(streamChunks(textTurns(`${tag}é😀`)[turnIndex(rec, 'messages')]))), headers: sse }),
    start: (env, lib, o, tag) => { const r = lib.streamText(o); return { ...streamOf(env, tag, r, ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream']), messages: env.watch(r.messages, `${tag}messages`), steps: env.watch(r.steps, `${tag}steps`), totalUsage: env.watch(r.totalUsage, `${tag}total`), usage: env.watch(r.usage, `${tag}usage`) } },
  },
  resp: {
    options: (env, tag) => { const { messages, ...o } = loopOptions(env, tag, false); return { ...o, input: [{ content: `hi ${tag}`, role: 'user', type: 'message' }], onEvent: () => {}, onFinish: () => {}, reasoning: { effort: 'low' }, streamOptions: { includeObfuscation: false } } },
    server: tag => (rec) => { const n = turnIndex(rec, 'input'); return { chunks: rough(respSse(respEvents(textTurns(`${tag}é😀`)[n], n))), headers: sse } },
    start: (env, lib, o, tag) => { const r = lib.responses(o); const input = env.watch(r.input, `${tag}input`); input.map = noId; return { ...streamOf(env, tag, r, ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream']), input, steps: env.watch(r.steps, `${tag}steps`), totalUsage: env.watch(r.totalUsage, `${tag}total`), usage: env.watch(r.usage, `${tag}usage`) } },
  },
  genobj: {
    options: (env, tag) => ({ ...loopOptions(env, tag, false), output: 'array', schema: okSchema(), schemaName: `s${tag}` }),
    server: tag => rec => ({ json: genBody(turnIndex(rec, 'messages') ? { text: `{"elements":[{"n":1,"t":"${tag}"},{"n":2}]}` } : textTurns(tag)[0]) }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.generateObject(o), `${tag}genobj`) }),
  },
  elements: {
    options: (env, tag) => ({ messages: [{ content: tag, role: 'user' }], output: 'array', schema: okSchema() }),
    server: tag => () => ({ chunks: cut(sseText(streamChunks({ split: 9, text: `{"elements":[{"n":1,"t":"${tag}"},{"n":22},{"n":333}]}` }))), headers: sse }),
    start: (env, lib, o, tag) => {
      const h = { call: env.watch(lib.streamObject(o).then((r) => { Object.assign(h, streamOf(env, tag, r, ['elementStream', 'textStream']), { steps: env.watch(r.steps, `${tag}steps`) }); return 'started' }), `${tag}elements`) }
      return h
    },
  },
  partial: {
    options: (env, tag) => ({ messages: [{ content: tag, role: 'user' }], schema: okSchema() }),
    server: tag => () => ({ chunks: cut(sseText(streamChunks({ split: 9, text: `{"n":1,"t":"${tag}","l":[1,2,{"a":"b"}]}` }))), headers: sse }),
    start: (env, lib, o, tag) => {
      const h = { call: env.watch(lib.streamObject(o).then((r) => { Object.assign(h, streamOf(env, tag, r, ['partialObjectStream', 'textStream']), { steps: env.watch(r.steps, `${tag}steps`) }); return 'started' }), `${tag}partial`) }
      return h
    },
  },
  speechStream: {
    options: (env, tag) => ({ input: `say ${tag}`, voice: 'v' }),
    server: tag => () => ({ chunks: rough(respSse([...[[1, 2], [3], [250, 251, 252]].map(x => ({ audio: b64([...x, tag.charCodeAt(0)]), type: 'speech.audio.delta' })), { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: tag.charCodeAt(0), total_tokens: 3 } }])), headers: sse }),
    start: (env, lib, o, tag) => {
      const h = { call: env.watch(lib.streamSpeech(o).then((r) => { Object.assign(h, streamOf(env, tag, r, ['fullStream']), { usage: env.watch(r.usage, `${tag}usage`) }); return 'started' }), `${tag}speech`) }
      return h
    },
  },
  transcriptionStream: {
    options: (env, tag) => ({ file: new Blob([tag]), language: 'en', prompt: 'p' }),
    server: tag => () => ({ chunks: rough(respSse([...['Grüß ', `${tag}`, '日本'].map(delta => ({ delta, type: 'transcript.text.delta' })), { text: '', type: 'transcript.text.done' }])), headers: sse }),
    start: (env, lib, o, tag) => { const r = lib.streamTranscription(o); return { ...streamOf(env, tag, r, ['fullStream', 'textStream']), text: env.watch(r.text, `${tag}text`) } },
  },
  embedMany: {
    options: (env, tag) => ({ dimensions: 2, input: [tag, 'b'] }),
    server: tag => rec => ({ json: { data: rec.json.input.map((x, i) => ({ embedding: [x.charCodeAt(0), i], index: i, object: 'embedding' })), model: 'm', object: 'list', usage: { prompt_tokens: tag.charCodeAt(0), total_tokens: 2 } } }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.embedMany(o), `${tag}embedMany`) }),
  },
  embed: {
    options: (env, tag) => ({ input: tag }),
    server: tag => rec => ({ json: { data: [{ embedding: [rec.json.input.charCodeAt(0), 2], index: 0, object: 'embedding' }], usage: { prompt_tokens: 1, total_tokens: tag.charCodeAt(0) } } }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.embed(o), `${tag}embed`) }),
  },
  image: {
    options: (env, tag) => ({ n: 2, prompt: tag, responseFormat: 'url', size: '1x1' }),
    server: tag => rec => rec.url.includes('/images/generations') ? { json: { created: 1, data: [{ url: `http://img${tag}/1` }, { b64_json: `iVBORw0KGgo${tag}` }, { url: `http://srv${tag}/v1/files/2` }] } } : { bytes: new Uint8Array([1, rec.url.charCodeAt(rec.url.length - 1)]), headers: { 'content-type': 'image/gif' } },
    start: (env, lib, o, tag) => ({ result: env.watch(lib.generateImage(o), `${tag}image`) }),
  },
  speech: {
    options: (env, tag) => ({ input: tag, voice: 'v' }),
    server: tag => () => ({ bytes: new Uint8Array([tag.charCodeAt(0), 0, 255]) }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.generateSpeech(o), `${tag}speech`) }),
  },
  transcription: {
    options: (env, tag) => ({ file: new Blob([tag]), fileName: 'f.wav', temperature: '0' }),
    server: tag => () => ({ json: { text: `text ${tag}` } }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.generateTranscription(o), `${tag}transcription`) }),
  },
  models: {
    options: () => ({}),
    server: tag => () => ({ json: { data: [{ id: tag }], object: 'list' } }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.listModels(o), `${tag}models`) }),
  },
  model: {
    options: () => ({}),
    server: tag => () => ({ json: { id: tag, object: 'model' } }),
    start: (env, lib, o, tag) => ({ result: env.watch(lib.retrieveModel(o), `${tag}model`) }),
  },
}
/** the complete options object of one call; `seen` collects what its server saw */
export const optionsFor = (env, kind, tag, extra = {}) => {
  const seen = []
  const server = KINDS[kind].server(tag)
  const o = {
    apiKey: `key${tag}`,
    baseURL: `http://srv${tag}/v1`,
    fetch: (i, init) => env.fetchWith(server, i, init, (r) => {
      seen.push([r.url, r.method, r.headers, r.json ? (r.json.input?.map ? { ...r.json, input: noId(r.json.input) } : r.json) : r.form?.map(([k, v]) => [k, typeof v === 'string' ? v : [v.name, v.size]])])
    }),
    headers: { 'x-tag': tag },
    model: `model-${tag}`,
    ...KINDS[kind].options(env, tag),
    ...extra,
  }
  return { o, seen }
}
export const viewOf = view
