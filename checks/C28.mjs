import { canon, product, sequences } from '../lib/util.mjs'

const DEFAULTS = { codes: [408, 409, 425, 429, 500, 502, 503, 504], delay: 500, retry: 3 }
const INPUTS = { 'Request with body': () => new Request('http://h/b', { body: 'payload é', method: 'POST' }), Request: () => new Request('http://h/r', { headers: { 'x-a': '1' }, method: 'PUT' }), URL: () => new URL('http://h/u?x=1'), post: () => 'http://h/p', string: () => 'http://h/s' }
/** everything else there is to say about a request */
const MORE = { cache: { cache: 'no-store' }, credentials: { credentials: 'include' }, custom: { dispatcher: { own: 1 }, next: { revalidate: 60 } }, duplex: { duplex: 'half' }, integrity: { integrity: '' }, keepalive: { keepalive: true }, mode: { mode: 'cors' }, noBody: { body: null }, priority: { priority: 'low' }, redirect: { redirect: 'manual' }, referrer: { referrer: '', referrerPolicy: 'no-referrer' }, undef: { headers: undefined, keepalive: undefined, signal: undefined } }
const INITS = { 'Request with body': undefined, Request: undefined, URL: { headers: new Headers({ 'x-b': '2' }), method: 'DELETE' }, post: { body: '{"a":1}', headers: { 'content-type': 'application/json' }, method: 'POST' }, string: undefined }
/** what the policy makes of a sequence of outcomes: how many attempts, and which outcome is handed on */
const policy = (seq, { codes, retry }) => {
  for (let i = 0; ; i++) if (seq[i] === 'reject' || seq[i] === 'rejectNull' || (seq[i] >= 200 && seq[i] < 300) || i === retry || !codes.includes(seq[i])) return i
}
const STATUSES = [200, 204, 301, 400, 404, 408, 409, 425, 429, 500, 501, 502, 503, 504, 'reject', 'rejectNull']
const HEADERS = {
  after: { 'retry-after': '3' }, afterDate: { 'retry-after': 'Wed, 21 Oct 2099 07:28:00 GMT' }, afterMs: { 'retry-after-ms': '1500' }, afterZero: { 'retry-after': '0' }, html: { 'content-length': '0', 'content-type': 'text/html' }, limit: { 'x-ratelimit-remaining-requests': '0', 'x-ratelimit-reset-requests': '6m0s' }, no: { 'x-should-retry': 'false' }, yes: { 'x-should-retry': 'true' },
}
const ALL = Array.from({ length: 400 }, (_, i) => 200 + i)

export default {
  id: 'C28',
  bundle: 'small',
  block: 32,
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'all sequences of up to 4 outcomes over {200,404,429,503,rejection} x 5 retry counts x 3 delays x 4 retryable-status lists x 2 debug settings; each of 16 outcomes first and second; every status from 200 to 599 alone and after a retry, by default and with lists of codes; 30 consecutive and 12 overlapping failing calls of one instance; 4 kinds of input; runs of 40 failures; options given as undefined; aborts during each wait; 12 other members of a request and 8 methods; answers with 8 sets of headers about retrying or from other addresses; two or three overlapping calls of one or two instances with different histories under all schedules within 1 deviation; consecutive calls',
    thorough: 'sequences of up to 6 outcomes; 2 deviations',
  },
  * scenarios(tier) {
    const deep = tier === 'thorough'
    const opts = [...product([[undefined, 0, 1, 2, 5], [undefined, 0, 100], [undefined, [], [404], [404, 503, 200]]])].map(([retry, delay, codes]) => ({ ...(retry === undefined ? {} : { retry }), ...(delay === undefined ? {} : { retryDelay: delay }), ...(codes ? { retryStatusCodes: codes } : {}) }))
    for (const seq of sequences([200, 404, 429, 503, 'reject'], deep ? 6 : 4, 1)) for (const [i, o] of opts.entries()) if (seq.length < 4 || deep || i % 5 === seq.length) yield { calls: [{ o, seq }], dev: 0, o }
    for (const seq of sequences(STATUSES, 2, 1)) for (const input of Object.keys(INPUTS)) for (const debug of [false, true]) yield { calls: [{ input, seq }], dev: 0, o: { debug } }
    // every status there is, with the default list and with lists of other codes
    for (const codes of [undefined, [], [505, 599, 300, 418], [200, 429]]) for (const debug of [false, true]) for (const st of ALL) { yield { calls: [{ seq: [st] }], dev: 0, o: { debug, retry: 1, ...(codes ? { retryStatusCodes: codes } : {}) } }; if (!debug) yield { calls: [{ seq: [503, 599, st] }], dev: 0, o: { retry: 2, retryStatusCodes: [...(codes ?? DEFAULTS.codes), 503, 599] } } }
    // what else the answers say does not matter
    for (const headers of Object.keys(HEADERS)) for (const seq of [[503, 200], [429, 429, 200], [503, 503, 503, 503], [404], [500, 'reject'], [200]]) for (const o of [{}, { retryDelay: 0 }, { debug: true, retry: 1, retryDelay: 50 }, { retryDelay: 7_200_000 }]) yield { calls: [{ input: 'post', seq }], dev: 0, headers, o }
    // the answers come from elsewhere (redirects)
    for (const seq of [[503, 200], [429, 503, 404], [503, 503, 503, 503], [500, 'reject'], [302, 503, 200]]) for (const input of Object.keys(INPUTS)) for (const from of ['http://other/x', '']) yield { calls: [{ input, seq }], dev: 0, from, o: { retryDelay: 5 } }
    // requests with every other member, and every method
    for (const seq of [[503, 200], [429, 503, 404], [503, 503, 503, 503], [500, 'reject'], [404]]) {
      for (const more of Object.keys(MORE)) for (const input of ['URL', 'post', 'string']) yield { calls: [{ input, seq }], dev: 0, more: MORE[more], o: { retryDelay: 5 } }
      for (const method of ['GET', 'HEAD', 'OPTIONS', 'PUT', 'PATCH', 'DELETE', 'get', 'PROPFIND']) yield { calls: [{ input: 'string', seq }], dev: 0, more: { method }, o: { retryDelay: 5 } }
    }
    // a long series of calls of one instance
    for (const seq of [[503, 503, 503, 503], [503, 200], [503, 'reject'], [503, 404]]) for (const retry of [1, 3]) for (const serial of [true, false]) yield { calls: Array.from({ length: serial ? 30 : 12 }, () => ({ seq })), dev: 0, o: { retry, retryDelay: 5 }, serial }
    for (const retry of [0, 1, 3, 10, 39]) for (const st of [503, 404]) yield { calls: [{ seq: Array(40).fill(st) }], dev: 0, o: { retry } }
    // options that are present but undefined mean the defaults
    for (const k of ['debug', 'retry', 'retryDelay', 'retryStatusCodes']) for (const seq of [[503, 503, 503, 503, 200], [404], [200]]) yield { calls: [{ seq }], dev: 0, o: {}, undef: k }
    for (const seq of [[503, 503, 200], [429, 404, 503], [503, 503, 503, 503]]) for (let at = 1; at < seq.length; at++) yield { abort: at, calls: [{ input: 'post', seq }], dev: 0, o: { retryDelay: 100 } }
    // overlapping and consecutive calls: no budget is shared
    const H = [[200], [503, 200], [503, 503, 503], [503, 'reject'], [503, 503, 404]]
    for (const a of H) for (const b of H) for (const two of [false, true]) for (const gap of [0, 50, 150]) yield { calls: [{ seq: a }, { gap, instance: two ? 1 : 0, seq: b }], o: { retry: 2, retryDelay: 100 }, o2: { retry: 1, retryDelay: 30 } }
    for (const a of H) for (const b of H) yield { calls: [{ seq: a }, { seq: b }, { seq: a }], dev: 0, o: { retry: 2, retryDelay: 10 }, serial: true }
    // the options of one instance are changed by the caller and used for the next
    for (const a of H) for (const o2 of [{ retry: 0, retryDelay: 1 }, { retry: 5, retryDelay: 1, retryStatusCodes: [200] }, { retry: undefined, retryDelay: 20, retryStatusCodes: [] }]) yield { calls: [{ seq: a }, { instance: 1, seq: a }], dev: 0, o: { retry: 2, retryDelay: 100, retryStatusCodes: [503] }, o2, reuse: true }
    for (const a of H) yield { calls: [{ seq: [503, 503, 200] }, { seq: a }, { instance: 1, seq: a }], o: { retry: 2, retryDelay: 100 }, o2: { retry: 3, retryDelay: 100 } }
  },
  async execute(env, s) {
    const opt = o => ({ codes: o?.retryStatusCodes ?? DEFAULTS.codes, delay: o?.retryDelay ?? DEFAULTS.delay, retry: o?.retry ?? DEFAULTS.retry })
    const make = o => env.lib.createFetch(...(o && Object.keys(o).length === 0 && !s.undef ? [] : [{ ...o, ...(s.undef ? { [s.undef]: undefined } : {}) }]))
    const one = { ...s.o }
    const fetches = s.reuse ? [env.lib.createFetch(one), env.lib.createFetch(Object.assign(one, s.o2))] : [make(s.o), s.o2 ? make(s.o2) : undefined]
    const options = [opt(s.o), opt(s.o2)]
    const ctl = new AbortController()
    const calls = s.calls.map((c, n) => ({ ...c, attempts: [], input: c.input ?? 'string', n, options: options[c.instance ?? 0], path: `/${c.input ? 'x' : `call${n}`}` }))
    // the call a request belongs to is visible in its URL
    const target = c => c.input === 'string' ? `http://h/s?call=${c.n}` : INPUTS[c.input]()
    env.server = (rec) => {
      const c = calls.length === 1 ? calls[0] : calls[Number(/call=(\d+)/.exec(rec.url)[1])]
      const out = c.seq[Math.min(c.attempts.length, c.seq.length - 1)]
      const a = { at: rec.at, out, rec }
      // like the real one, fetch uses up the body of a request object
      if (rec.input instanceof Request) { try { const used = new Request(rec.input, rec.init); a.body = used.text() } catch (e) { return { reject: e } } }
      c.attempts.push(a)
      a.answeredAt = env.now
      if (out === 'reject') return { reject: a.error = new TypeError('fetch failed') }
      if (out === 'rejectNull') return { reject: a.error = null }
      a.res = new Response([204, 205, 304, 301].includes(out) ? null : `body ${c.attempts.length}`, { headers: HEADERS[s.headers], status: out })
      if (s.from !== undefined) Object.defineProperties(a.res, { redirected: { value: true }, url: { value: s.from } })
      if (s.abort === c.attempts.length) env.action('abort', () => ctl.abort('enough'))
      return { raw: a.res }
    }
    const start = async (c) => {
      const f = fetches[c.instance ?? 0]
      const init = s.more ? { ...INITS[c.input], ...s.more } : INITS[c.input]
      c.given = target(c); c.init = s.abort ? { ...init, signal: ctl.signal } : init
      c.before = canon(c.init)
      c.result = env.watch(c.init ? f(c.given, c.init) : f(c.given), `call ${c.n}`)
    }
    for (const c of calls) {
      if (c.gap) env.setTimeout(() => { start(c) }, c.gap)
      else start(c)
      if (s.serial) await env.run()
    }
    await env.run()
    for (const c of calls) {
      const what = `call ${c.n} with the outcomes ${canon(c.seq)}`
      env.check(c.result.settled, `${what} never settles`)
      const seq = Array.from({ length: 100 }, (_, i) => c.seq[Math.min(i, c.seq.length - 1)])
      const last = policy(seq, c.options)
      if (s.abort) {
        // the attempt after the abort is made with the aborted signal and its rejection is handed on
        const n = Math.min(last, s.abort - 1)
        env.expect(c.attempts.length, n + 1, `${what}: attempts`)
        if (last > n) env.check(!c.result.ok && c.result.error === 'enough', `${what} gives ${canon(c.result.ok ? c.result.value.status : c.result.error)} although it was aborted`)
      }
      else {
        env.expect(c.attempts.length, last + 1, `${what}: attempts`)
        const a = c.attempts[last]
        if ('error' in a) env.check(!c.result.ok && c.result.error === a.error, `${what} does not hand on the rejection but ${canon(c.result.ok ? c.result.value?.status : c.result.error)}`)
        else env.check(c.result.ok && c.result.value === a.res && !a.res.bodyUsed, `${what} does not return the response of its last attempt: ${c.result.ok ? c.result.value?.status : c.result.error}`)
      }
      for (const [i, a] of c.attempts.entries()) {
        if (i > 0) { const gap = a.at - c.attempts[i - 1].answeredAt; if (calls.length === 1 ? gap !== c.options.delay : gap < c.options.delay) env.fail(`${what}: attempt ${i + 1} comes ${gap} after the answer before it instead of ${c.options.delay}`) }
        if (s.more) for (const k of Object.keys(s.more)) if (!(a.rec.input instanceof Request)) env.check(a.rec.init?.[k] === s.more[k], `${what}: attempt ${i + 1} is made without the caller's ${k}`)
        const want = c.given instanceof Request ? c.given : new Request(c.given, c.init && { ...c.init, signal: undefined })
        const got = a.rec.input instanceof Request ? a.rec.input : new Request(a.rec.input, { ...a.rec.init, signal: undefined })
        env.expect([got.url, got.method, [...got.headers], a.rec.body], [want.url, want.method, [...want.headers], c.init?.body], `${what}: the request of attempt ${i + 1}`)
        if (c.input === 'Request with body') env.expect(await a.body, 'payload é', `${what}: the body of attempt ${i + 1}`)
        if (s.abort) env.check(a.rec.signal === ctl.signal, `${what}: attempt ${i + 1} is made without the caller's signal`)
      }
      env.check(canon(c.init) === c.before, 'the options of the caller were changed')
    }
    return canon(calls.map(c => [c.attempts.length, c.result.ok]))
  },
}
