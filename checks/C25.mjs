import fs from 'node:fs'
import { canon, product, sequences } from '../lib/util.mjs'
import { b64 } from '../lib/streams.mjs'

const TABLE = JSON.parse(fs.readFileSync(new URL('../lib/providers.json', import.meta.url), 'utf8'))
const PATHS = { chat: 'chat/completions', embed: 'embeddings', image: 'images/generations', model: 'models', speech: 'audio/speech', transcription: 'audio/transcriptions' }
const ALIASES = { createNovita: 'createNovitaAi', createStepFun: 'createStepfun' }
const dir = u => u.endsWith('/') ? u : `${u}/`
/** one request through the public API with a handle */
const USE = {
  chat: (core, o) => core.generateText({ ...o, messages: [{ content: 'hi', role: 'user' }] }),
  embed: (core, o) => core.embed({ ...o, input: 'x' }),
  image: (core, o) => core.generateImage({ ...o, prompt: 'x' }),
  model: (core, o) => core.listModels({ ...o }),
  speech: (core, o) => core.generateSpeech({ ...o, input: 'say', voice: 'v' }),
  transcription: (core, o) => core.generateTranscription({ ...o, file: new Blob(['x']) }),
}
const ANSWER = {
  chat: { json: { choices: [{ finish_reason: 'stop', message: { content: 'ok', role: 'assistant' } }], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } } },
  embed: { json: { data: [{ embedding: [1] }], usage: {} } },
  image: { json: { data: [{ b64_json: 'iVBORw0KGgo=' }] } },
  model: { json: { data: [{ id: 'x' }], object: 'list' } },
  speech: { bytes: new Uint8Array([1, 2, 3]) },
  transcription: { json: { text: 't' } },
}
const SPEAK = { bytes: [7, 0, 255], json: { data: b64([7, 0, 255]) } }
const LIST = [{ id: 'a', object: 'model' }, { id: 'b', x: 1 }]
const LISTS = ['createTogetherAI', 'createFeatherless']
const symbols = caps => caps.flatMap(c => c === 'model' ? [{ cap: c }] : c === 'chat' ? [{ cap: c, model: 'm1' }, { cap: c, model: 'm2' }] : [{ cap: c, model: `${c}1` }])
const EXTRA = {
  anthropic: [undefined, { thinking: { budget_tokens: 5, type: 'enabled' } }, {}],
  openrouter: [
    undefined, {}, { models: ['x/y', 'z'] }, { transforms: [] }, { transforms: ['middle-out'] },
    { provider: { allowFallbacks: false, dataCollection: 'deny', ignore: ['A b'], order: ['OpenAI', 'B'], quantizations: ['int4'], requireParameters: true, sort: 'price' } },
    { extraHeaders: { 'HTTP-Referer': 'http://me', 'X-Title': 'T' } }, { extraHeaders: { 'X-Title': 'other' }, models: ['q'], provider: { sort: 'latency' }, transforms: ['t'] },
    { extraHeaders: { h: { 'X-Title': 'of Headers', 'x-b': '2' } } },
  ],
}
// Player2's own options, by the name xsai sends them under
const OWN = [{ instructions: 'slowly' }, { instructions: '', seed: 0, stream: false, user: 'u' }, { playInApp: true }, { voiceIds: ['x', 'y'] }, { voiceIds: [] }, { audioFormat: 'mp3' }, { voiceGender: 'female', voiceLanguage: 'en_US' }, { advancedVoice: { instructions: '' }, playInApp: true, voiceIds: ['z'] }]
// options of a handle that take the place of the provider's
const OVER = [{ x: { apiKey: 'other' } }, { x: { baseURL: 'http://b/v2/' } }, { x: { headers: { 'x-mine': '2' } } }, { x: { apiKey: 'other', baseURL: 'http://b/v3', headers: {} } }]
const SNAKE = { allowFallbacks: 'allow_fallbacks', dataCollection: 'data_collection', requireParameters: 'require_parameters' }
const wire = (x) => {
  const { extraHeaders, provider, ...r } = x ?? {}
  return { ...r, ...(provider ? { provider: Object.fromEntries(Object.entries(provider).map(([k, v]) => [SNAKE[k] ?? k, v])) } : {}) }
}
const given = x => x?.extraHeaders?.h ? { ...x, extraHeaders: new Headers(x.extraHeaders.h) } : x && structuredClone(x)
const lower = h => Object.fromEntries(Object.entries(h).map(([k, v]) => [k.toLowerCase(), v]))

export default {
  id: 'C25',
  bundle: 'providers',
  block: 16,
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: '124 provider factories x every sequence of up to 3 handle requests (each capability, two models for chat) x default and own base URLs; 124 ready-made providers x each setting of their environment variables; the 11 handle helpers with own headers/fetch x sequences of up to 3 with extra options; OpenRouter and Anthropic extras in sequences of 2; Azure key kinds; Player2 requests; failing statuses of the special fetch wrappers; the wrappers called directly with every header form, body and answer',
    thorough: 'handle sequences of up to 4 (up to 5 capabilities), helper sequences of up to 4, OpenRouter and Anthropic extras in sequences of 3',
  },
  * scenarios(tier) {
    const deep = tier === 'thorough'
    const names = [...Object.keys(TABLE.creates), ...Object.keys(ALIASES)]
    for (const name of names) {
      const { caps } = TABLE.creates[ALIASES[name] ?? name]
      for (const seq of sequences(symbols(caps), deep && caps.length < 6 ? 4 : 3, 1)) yield { base: undefined, create: name, seq }
      for (const base of ['http://own/v1', 'http://own:1/x/', 'https://own', 'http://h/audio/speech/chat/completions/v1/', 'http://audio/models/tts/speak']) yield { base, create: name, seq: symbols(caps) }
      yield { create: name, seq: symbols(caps), two: true }
    }
    for (const [name, r] of Object.entries({ ...TABLE.ready, novita: TABLE.ready.novitaAi })) for (let mask = 0; mask < 2 ** r.env.length; mask++) yield { mask, ready: name, seq: symbols(r.caps) }
    yield { special: 'player2', seq: symbols(['chat', 'speech']) }
    for (const helper of ['Chat', 'Embed', 'Image', 'Model', 'Speech', 'Transcription']) for (const extra of helper === 'Image' ? [false] : [false, true]) {
      const S = [{ x: undefined }, { x: { seed: 1, topP: 0.5 } }, { x: { temperature: 2 } }, ...OVER.slice(0, 1)].filter(o => extra || !o.x)
      const syms = helper === 'Model' ? S.map(o => ({ ...o })) : S.flatMap(o => ['m1', 'm2'].map(model => ({ model, ...o })))
      for (const seq of sequences(syms, deep ? 4 : 3, 1)) for (const own of ['fetch', 'headers', 'Headers', 'none']) yield { extra, helper, own, seq }
    }
    // options that replace the provider's own
    for (const helper of ['Chat', 'Embed', 'Model', 'Speech', 'Transcription']) for (const o of [...OVER, ...helper === 'Model' ? [] : [{ x: { model: 'own' } }]]) for (const seq of [[o], [o, { x: undefined }], [{ x: undefined }, o]]) for (const own of ['fetch', 'headers', 'Headers', 'none']) yield { extra: true, helper, own, seq: seq.map(y => helper === 'Model' ? y : { ...y, model: 'm1' }) }
    for (const kind of ['anthropic', 'openrouter']) for (const seq of sequences(EXTRA[kind], deep ? 3 : 2, 1)) for (const models of [['m'], ['m', 'n']]) yield { extras: kind, models, seq }
    for (const key of ['string', 'sync', 'async', 'counter', 'throws']) for (const version of [undefined, '2024-05-01']) for (const seq of sequences(symbols(['chat', 'embed', 'speech', 'transcription', 'model']), 2, 1)) yield { azure: key, seq, version }
    for (const account of ['acc', 'b2']) for (const seq of sequences(symbols(['chat', 'embed']), 3, 1)) yield { account, seq, workers: true }
    for (const base of [undefined, 'http://own/v1', 'http://own/v1/', 'http://h/audio/speech/v1', 'http://h/audio/speech/']) for (const gameKey of [undefined, 'game']) for (const [voice, speed, format] of product([[undefined, 'v'], [undefined, 0, 2], [undefined, 'wav']])) {
      yield { base, format, gameKey, player2: true, speed, voice }
      if (!base) for (const own of OWN) yield { base, format, gameKey, own, player2: true, speed, voice }
    }
    for (const status of [200, 201, 400, 401, 404, 429, 500, 503]) for (const body of ['json', 'text', 'empty']) for (const w of [...LISTS, 'player2', 'azure']) if (status >= 400 || body === 'json') yield { answer: body, status, wrapper: w }
    for (const w of [...LISTS, 'player2', 'azure']) for (const reject of ['err', 'str']) yield { reject, wrapper: w }
    // a handle's own fetch, called the way any request may call it
    for (const form of ['none', 'array', 'Headers', 'record']) for (const key of ['string', 'async']) yield { direct: 'azure', form, key }
    for (const data of ['AAEC', '', undefined, null]) for (const body of ['json', 'extra', 'text', 'none']) yield { body, data, direct: 'player2' }
  },
  async execute(env, s) {
    env.autoFetch = env.autoBody = true
    const core = env.lib.core
    if (s.create) {
      const row = TABLE.creates[ALIASES[s.create] ?? s.create]
      const make = (key, base) => env.lib.create[s.create](...(base === undefined ? [key] : [key, base]))
      const p = make('k1', s.base)
      expectCaps(env, p, row.caps)
      const other = s.two ? make('k2', 'http://second/v1/') : undefined
      const taken = s.seq.flatMap(x => other ? [[p, x, 'k1', row.baseURL], [other, x, 'k2', 'http://second/v1/']] : [[p, x, 'k1', s.base ?? row.baseURL]])
      return await useAll(env, taken.map(([p, x, key, base]) => ({ ...x, base, handle: p[x.cap](...(x.cap === 'model' ? [] : [x.model])), headers: { authorization: `Bearer ${key}` }, list: LISTS.includes(s.create) && x.cap === 'model' })))
    }
    if (s.ready) {
      const row = TABLE.ready[s.ready] ?? TABLE.ready.novitaAi
      env.processEnv = {}
      row.env.forEach((name, i) => { if (s.mask >> i & 1) env.processEnv[name] = `key ${i}` })
      // look-alikes must not be picked up
      Object.assign(env.processEnv, { API_KEY: 'wrong', OTHER_API_KEY: 'wrong' })
      const lib = env.instantiate(env.factories.providers)
      const p = lib.ready[s.ready]
      expectCaps(env, p, row.caps)
      const set = row.env.findIndex((_, i) => s.mask >> i & 1)
      return await useAll(env, s.seq.map(x => ({ ...x, base: row.baseURL, handle: p[x.cap](...(x.cap === 'model' ? [] : [x.model])), headers: { authorization: set < 0 ? 'Bearer' : `Bearer key ${set}` }, list: LISTS.includes(row.create) && x.cap === 'model' })))
    }
    if (s.special) {
      const p = env.lib.special.player2
      return await useAll(env, s.seq.map(x => ({ ...x, base: 'http://localhost:4315/v1/', handle: p[x.cap](x.model), headers: { 'player2-game-key': 'xsai' }, speak: x.cap === 'speech' })))
    }
    if (s.helper) return await helpers(env, s)
    if (s.extras) {
      const p = s.extras === 'openrouter' ? env.lib.create.createOpenRouter('k') : env.lib.create.createAnthropic('k')
      const base = s.extras === 'openrouter' ? 'https://openrouter.ai/api/v1/' : 'https://api.anthropic.com/v1/'
      const arg = s.seq.map(given); const before = canon(arg)
      const taken = s.seq.map((x, i) => ({ base, body: wire(x), cap: 'chat', handle: p.chat(s.models[i % s.models.length], arg[i]), headers: { authorization: 'Bearer k', ...lower(x?.extraHeaders?.h ?? x?.extraHeaders ?? {}) }, model: s.models[i % s.models.length] }))
      taken.push({ base, cap: 'model', handle: p.model(), headers: { authorization: 'Bearer k' } })
      env.check(canon(arg) === before, 'the extra options of the caller were changed')
      return await useAll(env, taken)
    }
    if (s.azure) {
      let n = 0
      const key = { async: async () => 'tok', counter: () => `tok${n++}`, string: 'tok', sync: () => 'tok', throws: () => { throw new Error('no token') } }[s.azure]
      const p = await env.lib.specialCreate.createAzure({ apiKey: key, apiVersion: s.version, resourceName: 'res' })
      expectCaps(env, p, ['chat', 'embed', 'model', 'speech', 'transcription'])
      return await useAll(env, s.seq.map((x, i) => ({ ...x, base: 'https://res.services.ai.azure.com/models/', fails: s.azure === 'throws' && 'no token', handle: p[x.cap](...(x.cap === 'model' ? [] : [x.model])), headers: { 'authorization': `Bearer tok${s.azure === 'counter' ? i : ''}`, ...(s.azure === 'string' ? { 'api-key': 'tok' } : {}) }, query: s.version ? `?api-version=${s.version}` : '' })))
    }
    if (s.workers) {
      const p = env.lib.specialCreate.createWorkersAI('k', s.account)
      expectCaps(env, p, ['chat', 'embed'])
      return await useAll(env, s.seq.map(x => ({ ...x, base: `https://api.cloudflare.com/client/v4/accounts/${s.account}/ai/v1/`, handle: p[x.cap](x.model), headers: { authorization: 'Bearer k' } })))
    }
    if (s.player2) {
      const p = env.lib.specialCreate.createPlayer2(s.base, s.gameKey)
      const headers = { 'player2-game-key': s.gameKey ?? 'xsai' }
      env.server = () => SPEAK
      const r = env.watch(core.generateSpeech({ ...p.speech('m'), input: 'say é', ...(s.format ? { responseFormat: s.format } : {}), ...(s.speed !== undefined ? { speed: s.speed } : {}), ...(s.voice ? { voice: s.voice } : {}), ...s.own }), 'speech')
      await env.run()
      env.check(r.ok, `the speech request fails with ${r.error}`)
      env.expect([...new Uint8Array(r.value)], SPEAK.bytes, 'the speech bytes')
      const [q] = env.requests
      env.expect([env.requests.length, q.url, q.method], [1, `${dir(s.base ?? 'http://localhost:4315/v1/')}tts/speak`, 'POST'], 'the request')
      for (const k in headers) env.expect(q.headers[k], headers[k], `the ${k} header`)
      const { model, ...body } = q.json
      env.expect(body, { ...(s.format ? { audio_format: s.format } : {}), play_in_app: false, speed: s.speed ?? 1, text: 'say é', voice_ids: s.voice ? [s.voice] : [], ...Object.fromEntries(Object.entries(s.own ?? {}).map(([k, v]) => [k.replace(/[A-Z]/g, c => `_${c.toLowerCase()}`), v])) }, 'the request body')
      return 'ok'
    }
    if (s.direct) return await direct(env, s)
    // ---- failures seen through a provider's own fetch wrapper
    const how = s.reject === 'err' ? { reject: new Error('offline') } : s.reject === 'str' ? { reject: 'offline' } : { status: s.status, ...(s.answer === 'json' ? { json: s.wrapper === 'player2' ? SPEAK.json : s.wrapper === 'azure' ? ANSWER.model.json : LIST } : s.answer === 'text' ? { text: 'plain words' } : { nullBody: true }) }
    env.server = () => how
    const handle = s.wrapper === 'player2' ? env.lib.specialCreate.createPlayer2().speech('m') : s.wrapper === 'azure' ? (await env.lib.specialCreate.createAzure({ apiKey: 'k', resourceName: 'r' })).model() : env.lib.create[s.wrapper]('k').model()
    const r = env.watch(USE[s.wrapper === 'player2' ? 'speech' : 'model'](core, handle), 'call')
    await env.run()
    env.check(r.settled, 'the call never settles')
    if (s.reject) env.check(!r.ok && r.error === how.reject, `a rejected request gives ${canon(r.ok ? r.value : r.error)}`)
    else if (s.status >= 400) env.check(!r.ok && r.error instanceof Error && r.error.statusCode === s.status, `a response with status ${s.status} gives ${r.ok ? canon(r.value) : r.error}`)
    else {
      env.check(r.ok, `a response with status ${s.status} fails: ${r.error}`)
      env.expect(s.wrapper === 'player2' ? [...new Uint8Array(r.value)] : r.value, s.wrapper === 'player2' ? SPEAK.bytes : s.wrapper === 'azure' ? ANSWER.model.json.data : LIST, 'the result')
    }
    return String(r.ok)
  },
}

function expectCaps(env, p, caps) {
  env.expect(Object.keys(p).filter(k => typeof p[k] === 'function').sort(), [...caps].sort(), 'what the provider offers')
}

/** all handles were taken first; now every one is used, front to back, and must still be what was asked for */
async function useAll(env, taken, call = (t, o) => USE[t.cap](env.lib.core, o)) {
  env.check(new Set(taken.map(t => t.handle)).size === taken.length, 'two handles are one object')
  for (const t of taken) {
    if (t.model !== undefined) env.expect(t.handle.model, t.model, 'the model of a handle')
    else env.check(t.handle.model === undefined, `a handle for listing models names the model ${canon(t.handle.model)}`)
    // every request has an answer of its own
    const list = [...LIST, { id: `own ${env.requests.length}` }]
    env.server = () => t.list ? { json: list } : t.speak ? { json: SPEAK.json } : ANSWER[t.cap]
    const n = env.requests.length
    const ctl = new AbortController()
    const r = env.watch(call(t, { ...t.handle, abortSignal: ctl.signal }), 'use')
    await env.run()
    env.check(r.settled, 'the request never settles')
    if (t.fails) {
      env.check(!r.ok && r.error instanceof Error && r.error.message.includes(t.fails), `a failing token source gives ${r.ok ? canon(r.value) : r.error}`)
      continue
    }
    env.check(r.ok, `the request with a handle fails: ${r.error?.stack ?? r.error}`)
    const q = env.requests[n]
    env.check(env.requests.length === n + 1, 'not exactly one request was made')
    env.expect(q.url, `${dir(t.base)}${t.speak ? 'tts/speak' : PATHS[t.cap]}${t.query ?? ''}`, 'the URL of the request')
    const { 'content-type': type, ...h } = q.headers
    env.check(q.json !== undefined ? /^application\/json\b/.test(type ?? '') : type === undefined, `a request with ${q.form ? 'a form' : q.json !== undefined ? 'JSON' : 'no body'} has content type ${canon(type)}`)
    env.expect(h, t.headers, 'the headers of the request')
    ctl.abort()
    env.check(q.signal?.aborted === true, 'the request does not follow the abort signal of the call')
    if (t.via) env.expect(q.via, t.via, 'the fetch function used')
    const sent = t.cap === 'model' ? undefined : q.form ? q.form.find(([k]) => k === 'model')?.[1] : q.json?.model
    env.expect(sent, t.model, 'the model of the request')
    if (t.cap === 'chat') {
      const { messages, model, stream, ...rest } = q.json
      env.expect(rest, t.body ?? {}, 'the extra options of the request')
    }
    else if (t.body && q.form) { if ('temperature' in t.body) env.expect(q.form.find(([k]) => k === 'temperature')?.[1], String(t.body.temperature), 'the extra option temperature') }
    else if (t.body && q.json) { for (const k in t.body) env.expect(q.json[k], t.body[k], `the extra option ${k}`) }
    if (t.list) env.expect(r.value, list, 'the model list')
  }
  return `${taken.length}`
}

async function direct(env, s) {
  const given = { 'x-a': '1', 'x-b': 'two' }
  if (s.direct === 'azure') {
    const p = await env.lib.specialCreate.createAzure({ apiKey: s.key === 'async' ? async () => 'tok' : 'tok', resourceName: 'res' })
    env.server = () => ANSWER.model
    const headers = { Headers: () => new Headers(given), array: () => Object.entries(given), none: () => undefined, record: () => ({ ...given }) }[s.form]()
    const r = env.watch(p.model().fetch(new URL('https://res.services.ai.azure.com/models/models'), { method: 'GET', ...(headers ? { headers } : {}) }), 'fetch')
    await env.run()
    env.check(r.settled && r.ok, `the handle's fetch fails: ${r.error}`)
    env.expect(env.requests.map(q => q.headers), [{ ...(headers ? given : {}), authorization: 'Bearer tok' }], 'the headers of the request')
    return s.form
  }
  const p = env.lib.specialCreate.createPlayer2()
  env.server = () => ({ json: { ...(s.data !== undefined ? { data: s.data } : {}) } })
  const body = { extra: '{"input":"say","model":"m","voice":"v","emotion":"calm","n":0}', json: '{"input":"say"}', none: undefined, text: 'not json' }[s.body]
  const warn = console.warn; console.warn = () => {}
  const r = env.watch(p.speech('m').fetch(new URL('http://localhost:4315/v1/audio/speech'), { ...(body !== undefined ? { body } : {}), method: 'POST' }), 'fetch')
  await env.run()
  console.warn = warn
  env.check(r.settled && r.ok, `the handle's fetch fails: ${r.error}`)
  const res = r.value
  env.check(res.ok && /^audio\//.test(res.headers.get('content-type') ?? ''), `answers with ${res.status} ${res.headers.get('content-type')}`)
  const b = env.watch(res.arrayBuffer(), 'body')
  await env.run()
  env.expect([...new Uint8Array(b.value)], s.data ? [0, 1, 2] : [], 'the audio')
  const [q] = env.requests
  env.expect(q.url, 'http://localhost:4315/v1/tts/speak', 'the URL')
  if (s.body === 'text') env.expect(q.body, 'not json', 'the body')
  else if (s.body !== 'none') env.expect(q.json, s.body === 'json' ? { play_in_app: false, speed: 1, text: 'say', voice_ids: [] } : { emotion: 'calm', model: 'm', n: 0, play_in_app: false, speed: 1, text: 'say', voice_ids: ['v'] }, 'the body')
  return s.body
}

async function helpers(env, s) {
  const cap = s.helper.toLowerCase()
  const own = s.own === 'headers' ? { headers: { 'x-own': '1' } } : s.own === 'Headers' ? { headers: new Headers({ 'x-own': '1' }) } : s.own === 'fetch' ? { fetch: (i, init) => env.fetchWith(env.server, i, init, undefined, 'own') } : {}
  const options = { apiKey: 'k', baseURL: new URL('http://own/v1'), ...own }
  const before = Object.keys(options).sort()
  const p = env.lib.utils[`create${s.helper}Provider${s.extra ? 'WithExtraOptions' : ''}`](options)
  const SN = { topP: 'top_p' }
  const taken = s.seq.map((x) => {
    const a = x.x && { ...x.x }
    const { apiKey = 'k', baseURL = 'http://own/v1', headers = own.headers ? { 'x-own': '1' } : {}, model = x.model, ...rest } = x.x ?? {}
    return { base: baseURL, body: Object.fromEntries(Object.entries(rest).map(([k, v]) => [SN[k] ?? k, v])), cap, handle: p[cap](...(cap === 'model' ? [] : [x.model]), ...(s.extra ? [a] : [])), headers: { authorization: `Bearer ${apiKey}`, ...headers }, model, via: s.own === 'fetch' ? 'own' : 'global', x: x.x }
  })
  for (const t of taken) if (t.cap === 'model') for (const k of ['seed', 'topP', 'temperature']) env.expect(t.handle[k], t.x?.[k], `the option ${k} of a handle`)
  const r = await useAll(env, taken)
  env.expect(Object.keys(options).sort(), before, 'the keys of the options given to the helper')
  return r
}
