import { reference } from '../lib/env.mjs'
import { KINDS, optionsFor, viewOf } from '../lib/kinds.mjs'
import { canon } from '../lib/util.mjs'

const deepFreeze = (v) => {
  if (v === null || typeof v !== 'object' || Object.isFrozen(v) || v instanceof Blob || v instanceof URL || v instanceof Headers || v instanceof AbortSignal) return v
  Object.freeze(v)
  for (const k of Object.keys(v)) deepFreeze(v[k])
  return v
}
const names = Object.keys(KINDS)
// the calls the telemetry package has its own version of
const TRACED = ['gen', 'stream', 'embed', 'embedMany']
const STREAMING = ['gen', 'stream', 'resp', 'elements', 'partial', 'speechStream', 'transcriptionStream', 'image']
// what a caller may hand to several calls, or change between two calls with the same options
const SUB = ['file', 'headers', 'input', 'messages', 'schema', 'tools', 'baseURL', 'fetch', 'onFinish', 'prepareStep', 'reasoning', 'streamOptions']
const CHANGE = {
  apiKey: o => { o.apiKey = 'other' }, baseURL: o => { o.baseURL.host = 'elsewhere' }, headers: o => { o.headers['x-tag'] = 'changed'; o.headers['x-more'] = 'y' }, input: o => { if (Array.isArray(o.input)) o.input.push(typeof o.input[0] === 'string' ? 'more' : { content: 'more', role: 'user', type: 'message' }); else o.input += '!' }, messages: o => { o.messages[0].content += '!'; o.messages.push({ content: 'more', role: 'user' }) },
  model: o => { o.model += '2' }, schema: o => { const json = { properties: { n: { type: 'number' }, t: { type: 'string' } }, type: 'object' }; o.schema['~standard'].jsonSchema = { input: () => json, output: () => json } }, tools: o => { o.tools[0].function.description = 'new'; o.tools[0].function.parameters.properties.y = { type: 'null' }; o.tools.pop() }, prompt: o => { o.prompt += '!' },
  tools2: o => { o.tools[0] = { ...o.tools[0], execute: input => `new ${JSON.stringify(input)}` } }, tools3: o => { o.tools.unshift({ ...o.tools[0], execute: () => 'first', function: { ...o.tools[0].function } }); o.tools.splice(1, 1) },
}
// a fetch that makes what it is handed its own, as the wrappers of some providers do
const grabs = f => (u, init) => {
  const p = f(u, init)
  if (u instanceof URL) { u.searchParams.append('api-version', '1'); u.pathname += '/own'; u.host = 'own' }
  if (init.headers instanceof Headers) for (const k of [...init.headers.keys()]) init.headers.set(k, `own ${k}`)
  else if (init.headers) for (const k of Object.keys(init.headers)) init.headers[k] = `own ${k}`
  if (init.body instanceof FormData) for (const k of [...init.body.keys()]) init.body.set(k, 'own')
  Object.assign(init, { body: 'own', method: 'PUT', redirect: 'error', signal: undefined })
  return p
}
const withURL = o => Object.assign(o, { baseURL: new URL(o.baseURL) })
const alone = (env, kind, tag, how = {}) => reference(env, `${kind}:${tag}:${canon(how)}`, async (e) => {
  const { o, seen } = optionsFor(e, kind, tag)
  if (how.url) withURL(o)
  if (how.share) { const other = optionsFor(e, kind, how.of); if (how.share === 'baseURL') withURL(other.o); o[how.share] = other.o[how.share] }
  if (how.change) CHANGE[how.change](o)
  const h = KINDS[kind].start(e, e.lib, o, tag)
  await e.run()
  return { requests: canon(seen), view: canon(viewOf(h)) }
})

export default {
  id: 'C14',
  bundles: ['telemetry'],
  dev: { quick: 3, thorough: 4 },
  block: 1,
  bounds: {
    quick: 'every ordered pair of the 15 APIs, concurrently (all interleavings within 2 deviations; 3 for pairs of the same streaming API) and one after the other, with own and with shared frozen options objects; three concurrent calls of each streaming API; every option that is an object shared between two calls whose other options differ, every option changed by the caller between two calls with the same options object; a failed, aborted or cancelled call before or beside each of them; fetches that change the URL, the headers and everything else they are handed; the four traced calls of the telemetry package with own, shared and frozen options',
    thorough: '4 deviations for same-API pairs, 3 for all pairs and shared options',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const k of names) {
      yield { calls: [k], dev: 0, frozen: true }
      yield { calls: [k, k], dev: 0, seq: true }
      yield { calls: [k, k, k], dev: 0, seq: true, shared: true }
    }
    for (const k of names) {
      const { o } = optionsFor({}, k, 'A')
      for (const share of SUB) if (share in o) for (const seq of [true, false]) yield { calls: [k, k], dev: seq ? 0 : 1, seq, share }
      for (const change of Object.keys(CHANGE)) if (change.replace(/\d$/, '') in o) yield { calls: [k, k], change, dev: 0, seq: true }
    }
    for (const a of names) for (const b of names) {
      yield { calls: [a, b], dev: 0, seq: true }
      if (a <= b) yield { calls: [a, b], dev: T ? 3 : 2 }
    }
    for (const k of names) {
      yield { calls: [k, k], dev: T ? 4 : STREAMING.includes(k) ? 3 : 2 }
      yield { calls: [k, k], dev: T ? 3 : 2, frozen: true, shared: true }
      yield { calls: [k, k, k], dev: T ? 2 : 1 }
      for (const url of [false, true]) for (const calls of [[k], [k, k]]) for (const shared of [false, true]) for (const seq of [false, true]) yield { calls, dev: seq ? 0 : 1, grabs: true, seq, shared, url }
      if (TRACED.includes(k)) for (const tele of [{}, { attributes: { a: 1 } }, undefined]) for (const frozen of [true, false]) for (const shared of [true, false]) yield { calls: [k, k], dev: frozen ? 0 : 1, frozen, seq: frozen, shared, tele: tele ?? false }
      for (const how of ['fail', 'abort', 'cancel']) for (const seq of [false, true]) yield { calls: [k, k], dev: 1, disturb: how, seq }
    }
  },
  async execute(env, s) {
    const tags = ['A', 'B', 'C']
    const runs = []
    const lib = 'tele' in s ? env.instantiate(env.factories.telemetry).telemetry : env.lib
    let shared
    for (const [i, kind] of s.calls.entries()) {
      let tag = tags[i]; let ob
      const disturbed = s.disturb && i === 0
      const ctl = disturbed && s.disturb === 'abort' ? new AbortController() : undefined
      if (s.shared) { tag = 'A'; shared ??= optionsFor(env, kind, tag); ob = shared }
      else ob = optionsFor(env, kind, tag, ctl ? { abortSignal: ctl.signal } : {})
      if (disturbed && s.disturb === 'fail') { const f = ob.o.fetch; let n = 0; ob.o.fetch = (u, init) => n++ === 0 ? env.fetchWith(() => ({ auto: true, chunks: ['data: {"a', 'b\n\n'] }), u, init) : f(u, init) }
      if (s.url && !(s.shared && i > 0)) withURL(ob.o)
      if (s.grabs && !(s.shared && i > 0)) ob.o.fetch = grabs(ob.o.fetch)
      if (s.share) { if (s.share === 'baseURL') withURL(ob.o); if (i > 0) ob.o[s.share] = runs[0].ob.o[s.share] }
      if (s.change) {
        if (i > 0) { ob = runs[0].ob; ob.seen.length = 0; tag = 'A'; CHANGE[s.change](ob.o) }
        else withURL(ob.o)
      }
      if (s.frozen && !('tele' in s)) deepFreeze(ob.o)
      const own = 'tele' in s
      if (own && !Object.isFrozen(ob.o)) { if (s.tele) ob.o.telemetry = structuredClone(s.tele); if (s.frozen) deepFreeze(ob.o) }
      const before = canon(ob.o)
      const h = KINDS[kind].start(env, own ? lib : env.lib, ob.o, `${tags[i]}`)
      if (ctl) env.action('abort', () => ctl.abort(), { optional: false })
      if (disturbed && s.disturb === 'cancel') env.action('cancel', () => { for (const k in h) h[k]?.reader?.cancel('x').catch(() => {}) })
      runs.push({ before, disturbed, h, kind, ob, tag })
      if (s.seq) { await env.run(); runs[i].view = s.change && i === 0 ? canon(viewOf(h)) : undefined }
    }
    await env.run()
    for (const [i, r] of runs.entries()) {
      env.check(s.change && i === 0 || canon(r.ob.o) === r.before, `call ${i} (${r.kind}) modified its options: ${r.before} became ${canon(r.ob.o)}`)
      if (r.disturbed) continue
      const ref = await alone(env, r.kind, r.tag, s.share && i > 0 ? { of: 'A', share: s.share } : s.url ? { url: true } : s.change ? { url: true, ...(i > 0 ? { change: s.change } : {}) } : {})
      const v = r.view ?? canon(viewOf(r.h))
      env.check(!v.includes('"pending"') && !v.includes('"open"'), `call ${i} (${r.kind}) does not settle: ${v}`)
      env.check(v === ref.view, `call ${i} (${r.kind}) beside ${s.calls} differs from the same call alone: ${v} instead of ${ref.view}`)
      if (!s.shared && s.share !== 'fetch' && !(s.change && i === 0)) env.check(canon(r.ob.seen) === ref.requests, `call ${i} (${r.kind}) beside ${s.calls} sends other requests than alone: ${canon(r.ob.seen)} instead of ${ref.requests}`)
    }
    return canon(runs.map(r => viewOf(r.h)))
  },
}
