import { KINDS, optionsFor, schema } from '../lib/kinds.mjs'
import { canon, product, subsets } from '../lib/util.mjs'

const PATHS = { elements: 'chat/completions', embed: 'embeddings', embedMany: 'embeddings', gen: 'chat/completions', genobj: 'chat/completions', image: 'images/generations', model: 'models/', models: 'models', partial: 'chat/completions', resp: 'responses', speech: 'audio/speech', speechStream: 'audio/speech', stream: 'chat/completions', transcription: 'audio/transcriptions', transcriptionStream: 'audio/transcriptions' }
const FORM = ['transcription', 'transcriptionStream']
const GET = ['models', 'model']
const BASES = [['http://srvA/v1', 'http://srva/v1/'], ['http://srvA/v1/', 'http://srva/v1/'], [{ url: 'http://srvA/v1' }, 'http://srva/v1/'], [{ url: 'http://srvA/v1/' }, 'http://srva/v1/'], ['https://h.example:8443/a/b/c', 'https://h.example:8443/a/b/c/'], ['http://localhost', 'http://localhost/'], [{ url: 'http://localhost' }, 'http://localhost/'], ['http://srvA/api/v1.0', 'http://srva/api/v1.0/'], [{ url: 'http://srvA/openai.json' }, 'http://srva/openai.json/'], ['https://api.example.com', 'https://api.example.com/'], ['http://srvA/a%20b/~x', 'http://srva/a%20b/~x/'], ['http://srvA/v1//', 'http://srva/v1//'], ['http://[::1]:9/v1', 'http://[::1]:9/v1/']]
const HEADERS = {
  none: undefined,
  empty: {},
  plain: { 'X-Custom': 'one', 'x-other': 'two' },
  auth: { Authorization: 'Basic mine', 'X-Custom': 'one' },
  lauth: { authorization: 'Basic mine' },
  ctype: { 'Content-Type': 'application/vnd.x+json' },
  lctype: { 'authorization': 'Bearer override', 'content-type': 'text/x' },
  H: { $headers: { 'X-Custom': 'one' } },
  Hempty: { $headers: {} },
  Hauth: { $headers: { 'Authorization': 'Basic mine', 'Content-Type': 'text/x' } },
  undef: { 'X-Gone': { $undefined: true }, 'X-Kept': '' },
}
const snake = s => s.replace(/[A-Z]/g, c => `_${c.toLowerCase()}`)
const CLIENT = new Set(['abortSignal', 'apiKey', 'baseURL', 'fetch', 'headers', 'onEvent', 'onFinish', 'onStepFinish', 'postToolCall', 'preToolCall', 'prepareStep', 'stopWhen', 'schema', 'schemaName', 'schemaDescription', 'output', 'telemetry'])
const VALUES = { arr: [], bool: false, empty: '', nested: { camelCase: { innerKey: [1, { deepKey: null }] } }, nul: null, num: 0, str: 'ü"\n😀' }
const LOOP = { frequencyPenalty: 0, logitBias: { 50256: -100 }, maxTokens: 12, parallelToolCalls: false, presencePenalty: -1, reasoningEffort: 'none', seed: 0, stop: ['\n', 'END'], temperature: 0, topK: 0, topP: 1, user: 'me' }
const EXTRA = {
  elements: LOOP, embed: { dimensions: 0, encodingFormat: 'float' }, embedMany: { dimensions: 3, user: '' }, gen: LOOP, genobj: LOOP, image: { n: 1, quality: 'hd', responseFormat: 'url', size: '2x2' },
  partial: LOOP, resp: { include: [], instructions: '', maxOutputTokens: 3, metadata: { aB: 'c' }, parallelToolCalls: false, reasoning: { effort: 'low', summary: null }, serviceTier: 'auto', store: false, temperature: 0, text: { format: { type: 'text' } }, topP: 0 },
  speech: { instructions: '', responseFormat: 'wav', speed: 0 }, speechStream: { instructions: 'x', responseFormat: 'pcm', speed: 1.5 }, stream: LOOP,
}
const TOOLSETS = {
  none: undefined, empty: [],
  rich: [
    { execute: () => 'x', function: { description: 'dé', name: 'a', parameters: { $defs: { camelCase: { type: 'null' } }, additionalProperties: false, properties: { aB: { type: 'string' } }, required: ['aB'], type: 'object' }, strict: true }, type: 'function', validate: async v => ({ value: v }) },
    { execute: () => 'y', function: { name: 'b', parameters: {}, strict: false }, type: 'function' },
    { cache_control: { type: 'ephemeral' }, deferLoading: false, execute: () => 'z', function: { name: 'c', parameters: { type: 'object' } }, type: 'function' },
  ],
}
const CHOICES = [undefined, 'auto', 'none', 'required', { function: { name: 'a' }, type: 'function' }]
const chatty = ['gen', 'stream', 'resp', 'genobj', 'elements', 'partial']
const real = (v) => {
  if (v && typeof v === 'object') {
    if ('url' in v) return new URL(v.url)
    if ('$headers' in v) return new Headers(v.$headers)
    if (!Array.isArray(v)) return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, x?.$undefined ? undefined : x]))
  }
  return v
}

export default {
  id: 'C15',
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: '15 APIs x 13 base URLs x 11 header forms x key/no key x signal/no signal x own/global fetch (full product); the global fetch replaced before and between calls; every subset of up to 2 options per API plus all of them, every value shape (7) for every option, 3 tool sets x 5 tool choices; schema options; multipart fields in every subset',
    thorough: 'subsets of up to 4 options per API',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const kind of Object.keys(KINDS)) {
      for (const [b, h, key, sig, own] of product([[...BASES.keys()], Object.keys(HEADERS), [true, false], [true, false], [true, false]])) yield { b, h, kind, key, own, sig }
      // the global fetch is replaced after the library was loaded, before or between calls
      for (const swap of ['before', 'between']) for (const h of ['none', 'H']) yield { h, kind, own: false, swap }
      for (const names of subsets(Object.keys(EXTRA[kind] ?? {}))) if (names.length && (names.length <= (T ? 4 : 2) || names.length === Object.keys(EXTRA[kind]).length)) yield { extra: names, kind }
      if (!FORM.includes(kind) && !GET.includes(kind)) for (const n of [...Object.keys(EXTRA[kind] ?? {}).slice(0, 6), 'someVendorOption', 'already_snake', 'useNBest', 'xY', 'topKMaxLP', 'n2Best', 'q']) for (const v of [...Object.keys(VALUES), 'undefined', 'fn']) if (!((kind === 'image' && n === 'n') || (kind === 'embed' && n === 'dimensions')) || v !== 'x') yield { kind, value: [n, v] }
      if (chatty.includes(kind) && kind !== 'resp') for (const v of ['num', 'bool', 'str']) yield { client: true, kind, value: ['maxSteps', v] }
      if (chatty.includes(kind)) for (const t of Object.keys(TOOLSETS)) for (let c = 0; c < CHOICES.length; c++) for (const key of [true, false]) yield { choice: c, key, kind, tools: t }
      if (kind === 'stream' || kind === 'resp') for (const so of [{ undefined: true }, {}, { includeUsage: true }, { includeUsage: false }, { includeObfuscation: false, includeUsage: true }]) yield { kind, streamOptions: so }
      if (['genobj', 'elements', 'partial'].includes(kind)) for (const [n, d, strict, output, js] of product([[undefined, 'my_schema'], [undefined, 'described'], [undefined, true, false], [undefined, 'object', 'array'], ['obj', 'nested', 'scalar']])) {
        if (kind === 'elements' ? output !== 'array' : kind === 'partial' ? output === 'array' : false) continue
        yield { js, kind, schemaOpts: { d, n, output: output ?? null, strict } }
      }
      if (FORM.includes(kind)) {
        const fields = kind === 'transcription' ? ['language', 'prompt', 'temperature', 'fileName', 'responseFormat', 'timestampGranularities'] : ['language', 'prompt', 'temperature', 'fileName']
        for (const on of subsets(fields)) for (const val of ['plain', 'empty', 'odd']) for (const rf of on.includes('responseFormat') ? ['json', 'verbose_json'] : [undefined]) for (const tg of on.includes('timestampGranularities') ? ['segment', 'word'] : [undefined]) for (const named of [false, true]) yield { form: { named, on, rf, tg, val }, kind }
      }
      if (kind === 'model') for (const m of ['gpt-4o', 'org/model-x', 'org/model:free', 'a.b_c-1']) for (let b = 0; b < BASES.length; b++) yield { b, kind, model: m }
      else for (const m of ['gpt-4o', 'org/model:free', 'modèle 😀', '']) if (kind !== 'models') yield { kind, model: m }
    }
  },
  async execute(env, s) {
    const { kind } = s
    env.autoFetch = true
    env.autoBody = true
    const { o } = optionsFor(env, kind, 'A')
    const ctl = new AbortController()
    const secret = 'sk-secret-key'
    if (s.key !== false) o.apiKey = secret; else delete o.apiKey
    if (s.h !== undefined) { const h = real(HEADERS[s.h]); if (h === undefined) delete o.headers; else o.headers = h }
    const [base, wantBase] = BASES[s.b ?? 1]
    o.baseURL = real(base)
    if (s.sig) o.abortSignal = ctl.signal
    if (s.model !== undefined) o.model = s.model
    if (kind === 'models') delete o.model
    env.server = KINDS[kind].server('A')
    if (s.own === false) delete o.fetch
    for (const n of s.extra ?? []) o[n] = EXTRA[kind][n]
    if (s.value) o[s.value[0]] = s.value[1] === 'undefined' ? undefined : s.value[1] === 'fn' ? () => 1 : VALUES[s.value[1]]
    if ('tools' in s) { const t = TOOLSETS[s.tools]; if (t) o.tools = t; else delete o.tools }
    if ('choice' in s) { if (CHOICES[s.choice] === undefined) delete o.toolChoice; else o.toolChoice = CHOICES[s.choice] }
    if (s.streamOptions) o.streamOptions = s.streamOptions.undefined ? undefined : s.streamOptions
    let expSchema
    if (s.schemaOpts) {
      const js = { nested: { properties: { a: { properties: { b: { type: 'string' } }, type: 'object' }, n: { type: 'number' } }, type: 'object' }, obj: { properties: { n: { type: 'number' } }, required: ['n'], type: 'object' }, scalar: { type: 'object' } }[s.js]
      o.schema = schema(v => ({ value: v }), js)
      const { d, n, output, strict } = s.schemaOpts
      delete o.output
      if (d) o.schemaDescription = d
      if (n) o.schemaName = n; else delete o.schemaName
      if (strict !== undefined) o.strict = strict
      if (output) o.output = output
      const st = strict !== false
      const seal = x => ({ ...x, additionalProperties: false, ...(x.properties ? { properties: Object.fromEntries(Object.entries(x.properties).map(([k, v]) => [k, v.type === 'object' ? seal(v) : v])) } : {}) })
      const inner = st ? seal(js) : js
      expSchema = { json_schema: { ...(d ? { description: d } : {}), name: n ?? 'json_schema', schema: output === 'array' ? { properties: { elements: { items: inner, type: 'array' } }, required: ['elements'], type: 'object' } : inner, strict: st }, type: 'json_schema' }
    }
    const formWant = {}
    if (FORM.includes(kind)) {
      delete o.language; delete o.prompt; delete o.temperature; delete o.fileName
      const f = s.form ?? { on: [], val: 'plain' }
      o.file = f.named ? new File(['DATAé'], 'orig.ogg', { type: 'audio/ogg' }) : new Blob(['DATAé'], { type: 'audio/wav' })
      const val = n => ({ empty: '', odd: `${n} ü"\r\n😀`, plain: `${n}-v` })[f.val]
      for (const n of f.on) {
        if (n === 'responseFormat') o.responseFormat = f.rf
        else if (n === 'timestampGranularities') o.timestampGranularities = f.tg
        else o[n] = n === 'fileName' ? (val(n) || 'x.mp3') : val(n)
      }
      formWant.model = o.model
      if (kind === 'transcription') { formWant.response_format = f.rf ?? 'json'; if (f.rf === 'verbose_json') formWant['timestamp_granularities[]'] = f.tg ?? 'segment' }
      else formWant.stream = 'true'
      for (const n of ['language', 'prompt', 'temperature']) if (o[n] !== undefined) formWant[n] = o[n]
    }
    if (s.swap === 'between') { env.watch(Promise.resolve(KINDS[kind].start(env, env.lib, o, 'first')), 'first'); await env.run(); env.requests.length = 0 }
    if (s.swap) env.shadow.fetch = (i, init) => env.fetch(i, init, 'replaced')
    let h
    if (s.extra || s.value || 'tools' in s || s.schemaOpts || s.model !== undefined) { try { h = KINDS[kind].start(env, env.lib, o, '') } catch (e) { if (s.value) return 'rejected'; throw e } }
    else h = KINDS[kind].start(env, env.lib, o, '')
    const before = env.requests.length
    await env.run()
    env.check(env.requests.length >= 1, 'no request was sent')
    void before; void h
    const isImg = r => kind === 'image' && !r.url.includes('/images/generations')
    for (const [i, r] of env.requests.entries()) {
      if (s.swap) env.check(r.via === 'replaced', `request ${i} goes through the ${r.via} fetch although the global one was replaced`)
      env.check(r.via === 'custom' ? s.own !== false : s.own === false, `request ${i} goes through the ${r.via} fetch`)
      if (s.sig) env.check(r.signal instanceof AbortSignal && !r.signal.aborted, `request ${i} does not carry the abort signal`)
      const lower = {}
      for (const [k, v] of Object.entries(r.headers)) lower[k.toLowerCase()] = v
      if (isImg(r)) {
        env.check(r.method === 'GET' && (r.url === 'http://imga/1' || r.url === 'http://srva/v1/files/2'), `image request ${r.method} ${r.url}`)
        env.check(!canon([r.headers, r.url]).includes(secret) && !('authorization' in lower) && !canon(r.headers).includes('mine'), `the image request carries credentials: ${canon(r.headers)}`)
        continue
      }
      const path = PATHS[kind] + (kind === 'model' ? o.model : '')
      env.expect(new URL(r.url).href, new URL(wantBase + path).href, `URL of request ${i}`)
      env.expect(r.method, GET.includes(kind) ? 'GET' : 'POST', `method of request ${i}`)
      const hs = s.h === undefined ? { 'x-tag': 'A' } : HEADERS[s.h]
      const caller = {}
      for (const [k, v] of Object.entries(hs?.$headers ?? hs ?? {})) if (!v?.$undefined) caller[k.toLowerCase()] = v
      for (const k of Object.keys(caller)) env.check(lower[k] === caller[k], `request ${i}: header ${k} should be the caller's ${canon(caller[k])}, is ${canon(lower[k])}`)
      env.check(!('x-gone' in lower), 'an undefined header is sent')
      if (!('authorization' in caller)) env.check(lower.authorization === (s.key !== false ? `Bearer ${secret}` : undefined), `request ${i}: authorization is ${canon(lower.authorization)}`)
      const { authorization, ...otherHeaders } = lower
      env.check(!canon([r.url, typeof r.body === 'string' ? r.body : '', otherHeaders]).includes(secret), `request ${i} leaks the API key`)
      if (GET.includes(kind)) { env.check(r.body == null, 'a GET request has a body'); continue }
      if (FORM.includes(kind)) {
        env.check(!lower['content-type'] || 'content-type' in caller, `multipart request with content type ${lower['content-type']}`)
        const got = {}
        for (const [k, v] of r.form) { env.check(!(k in got), `field ${k} is sent twice`); got[k] = v }
        const { file, ...fields } = got
        env.expect(fields, formWant, 'multipart fields')
        env.check(file && file.type === o.file.type && await file.text() === 'DATAé', 'the file is not sent unchanged')
        if (o.fileName !== undefined) env.expect(file.name, o.fileName, 'file name')
        else if (s.form?.named) env.expect(file.name, 'orig.ogg', 'file name')
        continue
      }
      if (!('content-type' in caller)) env.check(/^application\/json\b/.test(lower['content-type'] ?? ''), `request ${i}: content type ${lower['content-type']}`)
      const want = {}
      for (const [k, v] of Object.entries(o)) if (!CLIENT.has(k) && !(s.client && k === s.value[0]) && v !== undefined && typeof v !== 'function') want[snake(k)] = v
      if (chatty.includes(kind)) {
        want.stream = kind !== 'gen' && kind !== 'genobj'
        if (o.streamOptions) want.stream_options = Object.fromEntries(Object.entries(o.streamOptions).map(([k, v]) => [snake(k), v]))
        if (o.tools) want.tools = kind === 'resp' ? o.tools.map(t => ({ description: t.function.description ?? null, name: t.function.name, parameters: t.function.parameters, strict: t.function.strict ?? true, type: 'function' })) : o.tools.map(({ execute, validate, ...t }) => t)
        const msgs = kind === 'resp' ? 'input' : 'messages'
        if (i > 0) { env.check(r.json[msgs].length > want[msgs].length && canon(r.json[msgs].slice(0, want[msgs].length)) === canon(want[msgs]), `request ${i} does not begin with the caller's ${msgs}`); delete want[msgs] }
      }
      if (['genobj', 'elements', 'partial'].includes(kind)) {
        delete want.strict
        if (expSchema) want.response_format = expSchema
        else { env.check(r.json.response_format?.type === 'json_schema', 'no response format is sent'); want.response_format = r.json.response_format }
      }
      if (kind === 'speechStream') want.stream_format = 'sse'
      const got = { ...r.json }
      if (chatty.includes(kind) && i > 0) delete got[kind === 'resp' ? 'input' : 'messages']
      for (const k of Object.keys(got)) env.check(k in want, `request ${i} carries ${k}: ${canon(got[k])}`)
      env.expect(got, JSON.parse(JSON.stringify(want)), `body of request ${i}`)
    }
    if (s.sig) { ctl.abort(); for (const [i, r] of env.requests.entries()) env.check(r.signal.aborted, `request ${i}: the signal it carries does not follow the caller's`) }
    return canon(env.requests.map(r => [r.url, r.method, r.headers, r.json]))
  },
}
