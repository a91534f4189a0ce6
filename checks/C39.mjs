import { reference } from '../lib/env.mjs'
import { KINDS, optionsFor, viewOf } from '../lib/kinds.mjs'
import { canon, product } from '../lib/util.mjs'

const REASONS = { dflt: () => undefined, empty: () => '', err: () => new Error('enough'), frozen: () => Object.freeze({ why: 'enough' }), nul: () => null, str: () => 'stop now', zero: () => 0 }
const TRACED = { tEmbed: 'embed', tEmbedMany: 'embedMany', tGen: 'gen', tStream: 'stream' }
const NAMES = [...Object.keys(KINDS), ...Object.keys(TRACED)]
const kindOf = k => TRACED[k] ?? k
const halves = b => b.length < 2 ? [b] : [b.slice(0, b.length >> 1), b.slice(b.length >> 1)]
/** every body in pieces, each piece and the end an event of its own */
const pieces = (a) => {
  if (a.chunks) return { ...a, auto: false }
  const b = a.json !== undefined ? new TextEncoder().encode(JSON.stringify(a.json)) : a.bytes
  return { auto: false, chunks: halves(b), headers: { 'content-type': 'application/json', ...a.headers }, status: a.status }
}
const slowed = kind => rec => pieces(KINDS[kind].server('A')(rec))
/** the whole body in one piece, there at once */
const atOnce = kind => (rec) => { const p = pieces(KINDS[kind].server('A')(rec)); return { ...p, auto: true, chunks: [Buffer.concat(p.chunks.map(c => typeof c === 'string' ? Buffer.from(c) : c))] } }
// calls with a provider's handle whose own fetch stands between the call and the network
const LIST = () => pieces({ json: [{ id: 'a' }, { id: 'b' }] })
const HANDLES = {
  pAzure: { server: () => pieces({ json: { data: [{ embedding: [1, 2] }], usage: { prompt_tokens: 1, total_tokens: 1 } } }), start: async (lib, o) => lib.core.embed({ ...(await lib.specialCreate.createAzure({ apiKey: async () => 'tok', resourceName: 'r' })).embed('m'), input: 'x', ...o }) },
  pFeatherless: { server: LIST, start: (lib, o) => lib.core.listModels({ ...lib.create.createFeatherless('k').model(), ...o }) },
  pPlayer2: { server: () => pieces({ json: { data: 'AAEC' } }), start: (lib, o) => lib.core.generateSpeech({ ...lib.special.player2.speech('m'), input: 'x', voice: 'v', ...o }) },
  pTogether: { server: LIST, start: (lib, o) => lib.core.listModels({ ...lib.create.createTogetherAI('k').model(), ...o }) },
}
const begin = (env, s, extra) => {
  if (s.kind in HANDLES) {
    env.server = HANDLES[s.kind].server
    return { result: env.watch(Promise.resolve(HANDLES[s.kind].start(env.instantiate(env.factories.providers), extra)), s.kind) }
  }
  const kind = kindOf(s.kind)
  const ns = s.kind in TRACED ? env.instantiate(env.factories.telemetry).telemetry : env.lib
  const server = s.whole ? atOnce(kind) : slowed(kind)
  const { o } = optionsFor(env, kind, 'A', { fetch: (i, init) => env.fetchWith(server, i, init), ...extra })
  return KINDS[kind].start(env, ns, o, 'A')
}
const undisturbed = (env, s) => reference(env, `C39:${s.kind}`, async (e) => {
  const h = begin(e, s, {})
  await e.run()
  return { requests: e.requests.length, view: structuredClone(viewOf(h)) }
})
const isStream = r => 'items' in r

export default {
  id: 'C39',
  bundle: 'core',
  bundles: ['telemetry', 'providers'],
  dev: { quick: 2, thorough: 3 },
  bounds: {
    quick: 'the 15 calls of the library, 4 traced ones and 4 with provider handles that have a fetch of their own x 7 abort reasons x abort before the call, or at every point between any two network events (answers, each of the body pieces, ends), with completion orders within 1 further deviation; signals made by a controller, combined from several, or aborted inside the fetch call or inside any of the first 24 event callbacks',
    thorough: '2 further deviations',
  },
  * scenarios() {
    for (const [kind, reason] of product([NAMES, Object.keys(REASONS)])) {
      yield { dev: 0, kind, reason, when: 'before' }
      yield { dev: reason === 'err' ? undefined : 1, kind, reason, when: 'any time' }
      yield { combined: true, dev: 1, kind, reason, when: 'any time' }
      for (let n = 0; n < (kind === 'image' ? 3 : ['gen', 'tGen', 'stream', 'tStream', 'resp', 'genobj'].includes(kind) ? 2 : 1); n++) for (const part of ['inside', 'answered']) yield { dev: 0, kind, n, part, reason, when: 'fetch' }
    }
    // inside the callback that hears of an event while the answer is read, however much of it has arrived
    // (a null reason counts as none there: a new error is thrown for it)
    for (const [kind, reason] of product([['resp', 'stream', 'tStream'], Object.keys(REASONS).filter(r => r !== 'nul')])) for (const whole of [true, false]) for (let n = 0; n < 24; n++) yield { dev: 0, kind, n, reason, whole, when: 'event' }
    for (const [kind, reason] of product([Object.keys(HANDLES), Object.keys(REASONS)])) {
      yield { dev: 0, kind, reason, when: 'before' }
      yield { kind, reason, when: 'any time' }
      yield { combined: true, dev: 1, kind, reason, when: 'any time' }
    }
    // an abort nobody asked this call to follow changes nothing
    for (const kind of [...NAMES, ...Object.keys(HANDLES)]) yield { kind, other: true, reason: 'err', when: 'any time' }
  },
  async execute(env, s) {
    const ref = await undisturbed(env, s)
    const ctl = new AbortController(); const outer = new AbortController()
    const signal = s.other ? outer.signal : s.combined ? AbortSignal.any([outer.signal, ctl.signal]) : ctl.signal
    let at
    const abort = () => {
      const labels = env.actions.map(a => a.label)
      at = {
        ended: labels.every(l => !/^(?:answer|body)#/.test(l)),
        missing: labels.some(l => /^answer#/.test(l) || /^body#\d+\.\d+$/.test(l)),
        requests: env.requests.length,
        settled: h && Object.values(h).every(r => isStream(r) ? r.done : r.settled),
        tools: labels.some(l => l.startsWith('tool:')),
      }
      const r = REASONS[s.reason]()
      if (r === undefined) ctl.abort(); else ctl.abort(r)
    }
    let h
    if (s.when === 'before') abort()
    else if (s.when === 'any time') env.action('abort', abort, { optional: true })
    const extra = { abortSignal: signal }
    if (s.when === 'fetch') {
      let n = 0
      const server = slowed(kindOf(s.kind))
      extra.fetch = (i, init) => {
        const mine = n++ === s.n
        const p = env.fetchWith(server, i, init).then((res) => { if (mine && s.part === 'answered' && !at) { abort(); at.missing = true } return res })
        if (mine && s.part === 'inside' && !at) { abort(); at.missing = true }
        return p
      }
    }
    if (s.when === 'event') {
      let n = 0
      extra.onEvent = (e) => {
        if (n++ !== s.n) return
        abort()
        at.ended = false
        // what starts or grows is still being read
        at.missing = /\.(?:start|delta)$/.test(e?.type)
        at.tools ||= /^(?:tool-call|tool-result|step)\.done$/.test(e?.type)
      }
    }
    h = begin(env, s, extra)
    await env.run()
    await env.settle()
    const outs = Object.entries(h).filter(([, r]) => r && typeof r === 'object')
    for (const [k, r] of outs) env.check(isStream(r) ? r.done || r.failed : r.settled, `the ${k} output never settles`)
    const view = viewOf(h)
    if (!at || s.other) {
      env.expect(view, ref.view, 'the outcome of a call that was not aborted')
      return 'no abort'
    }
    const reason = signal.reason
    env.check(env.requests.length === at.requests, `a request was sent after the abort`)
    for (const [i, r] of env.requests.entries()) env.check(r.signal instanceof AbortSignal && r.signal.aborted, `request ${i + 1} does not follow the caller's signal`)
    if (at.settled) { env.expect(view, ref.view, 'the outcome of a call aborted after it was over'); return 'after' }
    // a tool that is running when the call is aborted ends the run with that step
    if (at.tools) return 'during a tool'
    let failed = 0
    for (const [k, r] of outs) {
      const want = ref.view[k]
      const err = isStream(r) ? (r.failed ? r : undefined) : r.ok ? undefined : r
      if (err) {
        failed++
        env.check(Object.is(err.error, reason), `the ${k} output fails with ${canon(err.error)} instead of the abort reason`)
        if (isStream(r) && want) env.expect(r.items, want.items.slice(0, r.items.length), `the items of ${k}`)
      }
      else if (want !== undefined) env.expect(view[k], want, `the ${k} output of an aborted call that does not fail`)
    }
    if (at.missing) env.check(failed > 0, 'a call aborted before all of its data arrived does not fail')
    if (at.ended && s.when === 'any time') env.check(failed === 0, 'a call aborted after all of its data arrived fails')
    return failed ? 'failed' : 'whole'
  },
}
