// One controlled execution: a fresh library instance, an environment whose every
// asynchronous answer is an action of the scheduler, and an observation log.
import { escaped } from './unhandled.mjs'
import { Hash, canon } from './util.mjs'

export class Violation extends Error {
  constructor(message, detail, key) { super(message); this.detail = detail; this.key = key }
}
export class HarnessError extends Error {}

const realSetImmediate = setImmediate
const drain = () => new Promise(resolve => realSetImmediate(resolve))

if (typeof Uint8Array.fromBase64 !== 'function') {
  // Baseline-2025 built-in that this Node lacks; strict like the standard (default options)
  Object.defineProperty(Uint8Array, 'fromBase64', { configurable: true, writable: true, value: (s) => {
    if (typeof s !== 'string') throw new TypeError('expected a string')
    const t = s.replace(/[\t\n\f\r ]+/g, '')
    if (!/^(?:[A-Z\d+/]{4})*(?:[A-Z\d+/]{2}(?:==)?|[A-Z\d+/]{3}=?)?$/i.test(t)) throw new SyntaxError('invalid base64')
    return new Uint8Array(Buffer.from(t, 'base64'))
  } })
}

class FileReaderStandIn extends EventTarget {
  constructor() { super(); this.result = null; this.error = null; this.readyState = 0; this.onload = this.onloadend = this.onerror = this.onloadstart = null }
  #go(blob, f) {
    this.readyState = 1
    blob.arrayBuffer().then((b) => {
      this.result = f(Buffer.from(b), b, blob); this.readyState = 2
      this.#fire('load'); this.#fire('loadend')
    }, (e) => { this.error = e; this.readyState = 2; this.#fire('error'); this.#fire('loadend') })
  }
  #fire(t) { const ev = new Event(t); this[`on${t}`]?.call(this, ev); this.dispatchEvent(ev) }
  readAsDataURL(blob) { this.#go(blob, (b, _, x) => `data:${x.type || 'application/octet-stream'};base64,${b.toString('base64')}`) }
  readAsArrayBuffer(blob) { this.#go(blob, (_, b) => b) }
  readAsText(blob) { this.#go(blob, b => b.toString('utf8')) }
  readAsBinaryString(blob) { this.#go(blob, b => b.toString('latin1')) }
}

const enc = new TextEncoder()
const Math_ = Object.create(Object.prototype)
for (const k of Object.getOwnPropertyNames(Math)) Object.defineProperty(Math_, k, { value: k === 'random' ? () => 0.5 : Math[k] })

export class Env {
  constructor({ ctx, factory, horizon = 4000 }) {
    this.ctx = ctx
    this.horizon = horizon
    this.actions = []
    this.timers = []
    this.now = 0
    this.seq = 0
    this.steps = 0
    this.logHash = new Hash()
    this.requests = []
    this.uuid = 0
    this.server = null
    this.autoFetch = false
    this.onAction = null
    this.warnings = []
    this.processEnv = {}
    if (factory) this.lib = this.instantiate(factory)
  }

  instantiate(factory) {
    const env = this
    const fetch = (i, o) => env.fetch(i, o, 'global')
    const setTimeout_ = (fn, ms, ...a) => env.setTimeout(fn, ms, a)
    const clearTimeout_ = id => env.clearTimeout(id)
    const setInterval_ = (fn, ms, ...a) => { const id = { n: ++env.seq }; const tick = () => { fn(...a); id.cur = env.setTimeout(tick, ms, []) }; id.cur = env.setTimeout(tick, ms, []); return id }
    const clearInterval_ = id => env.clearTimeout(id?.cur)
    const crypto_ = { randomUUID: () => `00000000-0000-4000-8000-${String(++env.uuid).padStart(12, '0')}`, getRandomValues: a => a.fill(7), subtle: globalThis.crypto?.subtle }
    const quiet = (...a) => { env.warnings.push(a.map(String).join(' ')) }
    const console_ = { log: quiet, warn: quiet, error: quiet, info: quiet, debug: quiet, trace: quiet }
    const Date_ = class extends Date { constructor(...a) { if (a.length) super(...a); else super(1700000000000 + env.now) } static now() { return 1700000000000 + env.now } }
    const perf = { now: () => env.now, timeOrigin: 0 }
    const process_ = { env: env.processEnv, platform: 'linux', versions: {}, nextTick: (f, ...a) => queueMicrotask(() => f(...a)), cwd: () => '/', argv: [] }
    // timeouts of signals pass on the clock of the scheduler
    const timeout = (ms) => { const c = new AbortController(); env.setTimeout(() => c.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), ms); return c.signal }
    const AbortSignal_ = new Proxy(AbortSignal, { get: (t, k) => k === 'timeout' ? timeout : typeof t[k] === 'function' && k !== 'prototype' ? t[k].bind(t) : t[k] })
    const shadow = Object.create(globalThis)
    const over = { fetch, setTimeout: setTimeout_, clearTimeout: clearTimeout_, setInterval: setInterval_, clearInterval: clearInterval_, setImmediate: f => env.setTimeout(f, 0, []), crypto: crypto_, console: console_, Math: Math_, Date: Date_, performance: perf, FileReader: FileReaderStandIn, process: process_, AbortSignal: AbortSignal_ }
    const def = {}
    for (const k in over) def[k] = { value: over[k], writable: true, configurable: true, enumerable: true }
    def.globalThis = def.self = def.global = { value: shadow, writable: true, configurable: true }
    def.window = { value: undefined, writable: true, configurable: true }
    Object.defineProperties(shadow, def)
    env.shadow = shadow
    return factory(shadow, fetch, setTimeout_, clearTimeout_, setInterval_, clearInterval_, over.setImmediate, crypto_, console_, Math_, Date_, perf, FileReaderStandIn, process_, AbortSignal_, undefined, shadow, shadow)
  }

  // ---- observation log -----------------------------------------------------
  log(...entry) { this.logHash.add(entry.map(e => typeof e === 'string' ? e : canon(e)).join('|')); if (this.trace) this.trace.push(entry.map(e => typeof e === 'string' ? e : canon(e)).join(' ')) }
  /** records the violation even when the library swallows the throw */
  fail(message, detail, key) { const v = new Violation(message, detail, key); this.violation ??= v; throw v }
  expect(actual, expected, what) {
    const a = canon(actual); const e = canon(expected)
    if (a !== e) this.fail(`${what}: expected ${e}, got ${a}`)
  }
  check(cond, what, detail) { if (!cond) this.fail(what, detail) }

  // ---- actions ---------------------------------------------------------------
  action(label, run, opts = {}) {
    const a = { label, run, optional: !!opts.optional, id: ++this.seq }
    this.actions.push(a)
    return a
  }
  remove(a) { const i = this.actions.indexOf(a); if (i >= 0) this.actions.splice(i, 1) }
  /** promise that settles when the scheduler picks it */
  defer(label, fn) {
    return new Promise((resolve, reject) => {
      this.action(label, () => { try { resolve(fn ? fn() : undefined) } catch (e) { reject(e) } })
    })
  }
  setTimeout(fn, ms, args = []) {
    const t = { at: this.now + Math.max(0, Number(ms) || 0), run: () => fn(...args), id: ++this.seq }
    this.timers.push(t)
    return t
  }
  clearTimeout(t) { const i = this.timers.indexOf(t); if (i >= 0) this.timers.splice(i, 1) }

  pick(n, label) { return n <= 1 ? 0 : this.ctx.choose(n, label, 0) }

  async settle() { await drain() }
  /** rejections without a handler since the execution began */
  get unhandled() { return escaped.rejections }

  async run() {
    for (;;) {
      await drain()
      if (this.violation) throw this.violation
      const required = []; const optional = []
      for (const a of this.actions) (a.optional ? optional : required).push(a)
      let next
      if (this.timers.length) { next = this.timers[0]; for (const t of this.timers) if (t.at < next.at || (t.at === next.at && t.id < next.id)) next = t }
      const enabled = [...required]
      if (next) enabled.push({ label: `timer@${next.at}`, timer: next })
      const mayEnd = enabled.length === 0
      if (mayEnd) enabled.push({ label: 'end', end: true })
      enabled.push(...optional)
      this.ctx.state(this.logHash, enabled)
      const k = enabled.length === 1 ? 0 : this.ctx.choose(enabled.length, enabled, 1)
      const a = enabled[k]
      if (a.end) return
      if (++this.steps > this.horizon) this.fail(`no quiescence within ${this.horizon} environment actions (livelock); last action ${a.label}`)
      this.ctx.transition()
      if (a.timer) { this.clearTimeout(a.timer); this.now = Math.max(this.now, a.timer.at); this.log('t', a.label); a.timer.run() }
      else { this.remove(a); this.log('a', a.label); a.run() }
    }
  }

  // ---- network ---------------------------------------------------------------
  /**
   * fetch stand-in: records the call, honours the abort signal like fetch does and
   * answers with this.server(request) when the scheduler lets it (or at once if autoFetch).
   */
  fetch(input, init = {}, via = 'custom') { return this.fetchWith(this.server, input, init, undefined, via) }
  fetchWith(server, input, init, onRec, via = 'custom') {
    init ??= {}
    const n = this.requests.length
    const url = typeof input === 'string' ? input : input instanceof URL ? input.href : input?.url
    const rec = { n, via, url, input, init, method: init.method ?? 'GET', rawHeaders: init.headers, body: init.body, signal: init.signal, aborted: false, answered: false, bodyDone: false, cancelled: false, at: this.now }
    rec.headers = Object.fromEntries(new Headers(init.headers ?? {}).entries())
    if (typeof init.body === 'string') { try { rec.json = JSON.parse(init.body) } catch {} }
    else if (init.body instanceof FormData) rec.form = [...init.body.entries()]
    const signal = init.signal
    if (signal?.aborted) { rec.dead = true; this.deadRequests = (this.deadRequests ?? 0) + 1; return Promise.reject(signal.reason) }
    this.requests.push(rec)
    onRec?.(rec)
    this.log('fetch', url ?? '', rec.method, rec.body instanceof FormData ? canon(rec.form.map(([k, v]) => [k, typeof v === 'string' ? v : `blob:${v.size}`])) : String(rec.body ?? ''))
    this.onRequest?.(rec)
    return new Promise((resolve, reject) => {
      let act
      const onAbort = () => { rec.aborted = true; if (act) this.remove(act); if (rec.answered) rec.abortBody?.(signal.reason); else reject(signal.reason) }
      signal?.addEventListener('abort', onAbort, { once: true })
      const answer = () => {
        rec.answered = true
        let a
        try { a = server(rec) } catch (e) { if (e instanceof Violation || e instanceof HarnessError) { this.violation ??= e; return } reject(e); return }
        if (a?.reject !== undefined) { reject(a.reject); return }
        resolve(a instanceof Response || a?.raw ? (a.raw ?? a) : this.makeResponse(a, rec))
      }
      if (this.autoFetch) queueMicrotask(answer)
      else act = this.action(`answer#${n}`, answer)
    })
  }

  /** answer: {status, headers, json|text|bytes|sse(chunks)|body:null, steps:'chunk'|'auto', error} */
  makeResponse(a, rec = {}) {
    const status = a.status ?? 200
    const headers = a.headers ?? {}
    if (a.raw) return a.raw
    if (a.nullBody) return new Response(null, { status, headers })
    let chunks
    if (a.chunks) chunks = a.chunks.map(c => typeof c === 'string' ? enc.encode(c) : c)
    else if (a.json !== undefined) chunks = [enc.encode(JSON.stringify(a.json))]
    else if (a.text !== undefined) chunks = a.text.length ? [enc.encode(a.text)] : []
    else if (a.bytes !== undefined) chunks = [a.bytes]
    else chunks = []
    const body = this.bodyStream(chunks, { auto: a.auto ?? this.autoBody ?? false, error: a.error, hasError: 'error' in a, name: `body#${rec.n ?? 0}`, rec })
    const h = new Headers(headers)
    if (a.json !== undefined && !h.has('content-type')) h.set('content-type', 'application/json')
    return new Response(body, { status, statusText: a.statusText ?? '', headers: h })
  }

  /** a body whose chunks arrive one scheduler action at a time (or all at once when auto) */
  bodyStream(chunks, { auto, error, hasError, name, rec = {} }) {
    const env = this
    let ctrl; let act; let done = false
    let i = 0
    const finish = () => { done = true; rec.bodyDone = true; if (hasError) ctrl.error(error); else ctrl.close() }
    const step = () => {
      act = undefined
      if (done) return
      if (i < chunks.length) { ctrl.enqueue(chunks[i++]); arm() }
      else finish()
    }
    const arm = () => { if (!done) act = env.action(i < chunks.length ? `${name}.${i}` : `${name}.end`, step) }
    const stream = new ReadableStream({
      start(c) {
        ctrl = c
        if (auto && !hasError) { for (const x of chunks) c.enqueue(x); finish() }
        else if (!auto) arm()
      },
      // an auto body that ends in an error must hand out its chunks first
      ...(auto && hasError ? { pull(c) { if (i < chunks.length) c.enqueue(chunks[i++]); else if (!done) finish() } } : {}),
      cancel(reason) { done = true; rec.cancelled = true; rec.cancelReason = reason; if (act) env.remove(act) },
    })
    rec.abortBody = (reason) => { if (done) return; done = true; if (act) env.remove(act); try { ctrl.error(reason) } catch {} }
    return stream
  }

  // ---- consumers ---------------------------------------------------------------
  /** read a stream to its end continuously; returns the growing record */
  collect(stream, name, map = x => x) {
    const rec = { name, items: [], done: false, error: undefined, failed: false }
    const reader = stream.getReader()
    rec.reader = reader
    const loop = async () => {
      for (;;) {
        const { done, value } = await reader.read()
        if (done) { rec.done = true; this.log(name, 'done'); return }
        const m = map(value)
        rec.items.push(m)
        this.log(name, m)
      }
    }
    rec.finished = loop().catch((e) => { rec.failed = true; rec.error = e; this.log(name, 'error', e) })
    return rec
  }
  /** record the settlement of a promise */
  watch(promise, name) {
    const rec = { name, promise, settled: false, ok: undefined, value: undefined, error: undefined }
    promise.then((v) => { rec.settled = true; rec.ok = true; rec.value = v; this.log(name, 'ok', v) }, (e) => { rec.settled = true; rec.ok = false; rec.error = e; this.log(name, 'fail', e) })
    return rec
  }
}

/** runs f in a separate world on the canonical schedule (for differential references); memoised by key */
const memo = new Map()
export const reference = async (env, key, f) => {
  if (memo.has(key)) return memo.get(key)
  const e = new Env({ ctx: { choose: () => 0, state() {}, transition() {} }, factory: undefined })
  e.factories = env.factories
  e.lib = e.instantiate(env.factories.core)
  const v = await f(e)
  if (memo.size > 5000) memo.clear()
  memo.set(key, v)
  return v
}
