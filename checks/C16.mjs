import { genBody } from '../lib/chat.mjs'
import { KINDS, optionsFor } from '../lib/kinds.mjs'
import { canon, cutSets, cutsToPieces } from '../lib/util.mjs'

const JSONY = ['gen', 'genobj', 'embed', 'embedMany', 'image', 'transcription', 'models', 'model']
const STATUSES = [300, 304, 400, 401, 403, 404, 408, 409, 418, 422, 429, 451, 500, 501, 502, 503, 504, 529, 599]
const BODIES = ['', 'no', '{"error":{"message":"bäd 😀","code":"x"}}', '<html>\n<body>502</body></html>', '[]', 'x'.repeat(300), `${'long ä '.repeat(15_000)}END`, 'a\uFEFF\u2028\0 \r\n']
const BADJSON = ['', ' ', '{', '<html>', '{"choices":[}', 'undefined', '{"a":1}trailing', 'data: {"choices":[]}\n\n', '\uFEFFx', "{'a':1}", `{"a":"${'long ä '.repeat(15_000)}`]
const NOCHOICES = [{}, { choices: [] }, { choices: null }, { choices: [], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } }, { error: { message: 'quota' } }, { object: 'chat.completion', usage: null }, null, [], 'text', 7, true]
const REJECTS = { abort: () => new DOMException('The operation was aborted', 'AbortError'), err: () => new TypeError('fetch failed'), nul: () => null, num: () => 0, obj: () => ({ code: 'ECONNRESET' }), str: () => 'network down', undef: () => undefined }
const stepsOf = k => ['gen', 'stream', 'resp', 'genobj'].includes(k) ? [0, 1] : k === 'image' ? [0, 1, 2] : [0]

export default {
  id: 'C16',
  dev: { quick: 0, thorough: 1 },
  bounds: {
    quick: 'every request of the 15 APIs (first, second of a tool loop, each image download) x 19 failing statuses x 8 error bodies (up to 120 kB) x arrival whole, cut or failing midway; null bodies of 4 statuses; 5 non-stream bodies; 11 non-JSON texts; 11 choice-less chat answers; 7 rejection values, synchronous and asynchronous',
    thorough: 'every single cut of every body; completion orders within 1 deviation',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const kind of Object.keys(KINDS)) for (const at of stepsOf(kind)) {
      for (const status of STATUSES) for (let b = 0; b < BODIES.length; b++) {
        yield { at, b, fail: 'status', kind, status }
        if (status % 100 === 0 || T) { yield { at, b, cuts: [1, 3].filter(c => c < BODIES[b].length), fail: 'status', kind, status }; yield { at, b, broken: true, cuts: [2].filter(c => c < BODIES[b].length), fail: 'status', kind, status } }
        if (T && BODIES[b].length < 60 && status === 500) for (const cuts of cutSets(BODIES[b].length, 1, 1)) yield { at, b, cuts, fail: 'status', kind, status }
      }
      for (const status of [404, 500]) yield { at, fail: 'nullStatus', kind, status }
      for (const status of [200, 204]) yield { at, fail: 'null', kind, status }
      for (const body of ['string', 'object', 'number', 'true', 'undefined']) for (const ct of [null, 'text/html']) yield { at, body, ct, fail: 'nonstream', kind }
      for (const r of Object.keys(REJECTS)) for (const sync of [false, true]) yield { at, fail: 'reject', kind, r, sync }
      if (JSONY.includes(kind) && (kind !== 'image' || at === 0)) {
        for (let b = 0; b < BADJSON.length; b++) { yield { at, b, fail: 'json', kind }; for (let c = 1; c < Math.min(BADJSON[b].length, T ? 99 : 4); c++) yield { at, b, cuts: [c], fail: 'json', kind } }
        for (const r of ['err', 'str']) yield { at, fail: 'brokenjson', kind, r }
      }
      if (kind === 'gen' || kind === 'genobj') for (let b = 0; b < NOCHOICES.length; b++) yield { at, b, fail: 'nochoices', kind }
    }
  },
  async execute(env, s) {
    const { kind } = s
    const ob = optionsFor(env, kind, 'A')
    const good = KINDS[kind].server('A')
    let n = 0; let hit
    const thrown = s.r ? REJECTS[s.r]() : new Error('connection reset')
    const headers = { 'retry-after': '7', 'x-request-id': `req-${s.status ?? 0}` }
    const mine = (rec) => {
      // downloads are identified by their URL, other requests by their order
      const k = kind === 'image' ? (rec.url.includes('/images/generations') ? 0 : rec.url.endsWith('/1') ? 1 : 2) : n++
      if (k !== s.at) return good(rec)
      hit = rec
      const text = s.fail === 'status' ? BODIES[s.b] : s.fail === 'json' ? BADJSON[s.b] : undefined
      switch (s.fail) {
        case 'status': case 'json': {
          const status = s.status ?? 200
          if (status === 304) return { nullBody: true, headers, status }
          return { chunks: text === '' ? [] : cutsToPieces(text, s.cuts ?? []), headers, status, statusText: 'Said So', ...(s.broken ? { error: thrown } : {}) }
        }
        case 'nullStatus': case 'null': return { headers, nullBody: true, status: s.status }
        case 'nonstream': {
          const body = { number: 5, object: { on() {} }, string: 'text', true: true, undefined: undefined }[s.body]
          return { raw: { body, headers: new Headers(s.ct ? { 'content-type': s.ct } : {}), json: async () => ({}), ok: true, status: 200, statusText: '', text: async () => '{}', url: rec.url } }
        }
        case 'brokenjson': return { chunks: [JSON.stringify(genBody({ text: 'x' })).slice(0, 20)], error: thrown }
        case 'nochoices': return { json: NOCHOICES[s.b], status: 200 }
        case 'reject': throw thrown
      }
    }
    ob.o.fetch = (i, init) => {
      if (s.fail === 'reject' && s.sync && (kind === 'image' ? false : n === s.at)) { n++; hit = true; throw thrown }
      return env.fetchWith(mine, i, init)
    }
    env.autoBody = false
    const h = KINDS[kind].start(env, env.lib, ob.o, '')
    await env.run()
    if (!hit) env.fail('the request to fail was never made')
    const outs = Object.entries(h).filter(([, r]) => r && typeof r === 'object' && ('settled' in r || 'items' in r))
    env.check(outs.length > 0, 'nothing observable')
    const errs = []
    for (const [name, r] of outs) {
      if (name === 'call' && r.settled && r.ok && Object.keys(h).length > 1) continue // the call itself may hand out streams first
      if ('settled' in r) { env.check(r.settled, `${name} never settles`); env.check(!r.ok, `${name} resolves with ${canon(r.value)} although the request failed (${s.fail})`); errs.push([name, r.error]) }
      else { env.check(r.failed || r.done, `${name} never ends`); env.check(r.failed, `${name} ends normally although the request failed (${s.fail})`); errs.push([name, r.error]) }
    }
    env.check(errs.length > 0, 'nothing failed')
    for (const [name, e] of errs) {
      const is = (code, props) => {
        env.check(e?.code === code && e instanceof Error, `${name} should fail with ${code}, failed with ${canon(e)}`)
        for (const k in props) env.check(canon(e[k]) === canon(props[k]), `${name}: ${k} of the ${code} should be ${canon(props[k])}, is ${canon(e[k])}`)
      }
      if (s.broken || s.fail === 'brokenjson' || s.fail === 'reject') env.check(e === thrown, `${name} should fail with the original ${canon(thrown)}, failed with ${canon(e)}`)
      else if (s.fail === 'status' || s.fail === 'nullStatus') {
        is('api_call_error', { responseBody: s.fail === 'nullStatus' || s.status === 304 ? '' : BODIES[s.b], statusCode: s.status })
        for (const k in headers) env.check(e.responseHeaders?.[k] === headers[k], `${name}: the error lacks the response header ${k}: ${canon(e.responseHeaders)}`)
      }
      else if (s.fail === 'null') is('invalid_response', { reason: 'empty_body' })
      else if (s.fail === 'nonstream') is('invalid_response', { reason: s.body === 'undefined' ? 'empty_body' : 'invalid_body' })
      else if (s.fail === 'json') is('json_parse_error', { text: BADJSON[s.b].replace(/^\uFEFF/, '') })
      else if (s.fail === 'nochoices') is('invalid_response', { reason: 'no_choices' })
    }
    return canon(errs.map(([k, e]) => [k, e]))
  },
}
