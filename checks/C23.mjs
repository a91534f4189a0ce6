import { snapshot, startCall, streamChunks, sseText } from '../lib/chat.mjs'
import { FINAL_TURNS, MESSAGES, ODD_CALLS, TOOL_TURNS, TOOLS, withCalls } from '../lib/families.mjs'
import { canon, product, sequences } from '../lib/util.mjs'
import { D, legal, turnOf } from './C02.mjs'

/** within a step, completion orders decide the order of executions and hook calls */
const sorted = xs => xs.map(x => [canon(x), x]).sort((a, b) => a[0] < b[0] ? -1 : 1).map(x => x[1])
// of tool calls that fail side by side, completion orders decide which failure is reported
const err = e => e instanceof Error ? { code: e.code, message: e.reason === 'tool_call_id_mismatch' ? e.message.replace(/"[^"]*"/g, '"…"') : e.message, name: e.name, reason: e.reason, statusCode: e.statusCode } : { thrown: e }
const promise = r => !r.settled ? 'pending' : r.ok ? { ok: r.value } : { failed: err(r.error) }
const stream = r => ({ end: r.done ? 'done' : r.failed ? err(r.error) : 'open', items: r.items })

/** a stream that a throwing callback fails forgets what was not read yet, so how much came before the failure is not compared */
const alikeUpToFailure = (x, y) => Array.isArray(x?.items) && Array.isArray(y?.items) && typeof x.end === 'object' && canon(x.end) === canon(y.end) && x.items.every((item, i) => i >= y.items.length || canon(item) === canon(y.items[i]))

const STOPS = [undefined, { k: 'never' }, { k: 'count', n: 2 }, { k: 'tool', v: 'a' }, { k: 'text', v: 'see' }, { k: 'input', n: 4 }]
const OPTIONS = [{ telemetry: { attributes: { model: 'x', 'my.attr': 1 } } }, { apiKey: 'k', frequencyPenalty: 0, headers: { 'x-a': 'b' }, logprobs: true, maxTokens: 5, parallelToolCalls: false, presencePenalty: 1, seed: 0, stop: 'end', telemetry: {}, temperature: 0.5, topK: 3, topP: 1 }, { responseFormat: { json_schema: { name: 'x', schema: { type: 'object' } }, type: 'json_schema' }, stop: ['a', 'b'], toolChoice: 'required', user: 'u' }, { baseURL: new URL('http://srv/v1'), headers: new Headers({ authorization: 'x' }), telemetry: undefined }, { streamOptions: { includeUsage: true } }]
const CHOICES = ['none', 'auto', 'required', { function: { name: 'a' }, type: 'function' }]
const VALIDATED = [{ name: 'a', validate: 'value' }, { kind: 'throwErr', name: 'b', validate: 'undef' }, { kind: 'parts', mode: 'sync', name: 'p', validate: 'issues' }, { mode: 'async', name: 'other', validate: 'valueAsync' }]
const THROWN = { abortish: () => Object.assign(new Error('not really'), { name: 'AbortError' }),  dom: () => new DOMException('late', 'TimeoutError'), err: () => new RangeError('cb'), silent: () => new Error(''), quota: () => Object.assign(new (class QuotaError extends Error {})('too much'), { code: 'E_QUOTA' }), nul: () => null, str: () => 'plain' }
const USAGE = { prompt_tokens: 1, total_tokens: 2 }
export const EMBED = {
  extra: { json: { data: [{ embedding: [1], index: 0, vendor: 1 }], model: 'x', usage: { ...USAGE, extra: 1 } } }, none: { json: { data: [], usage: USAGE } }, normal: { json: { data: [{ embedding: [0.5, -1], index: 0 }, { embedding: [2, 3], index: 1 }], usage: USAGE } }, noData: { json: {} }, noUsage: { json: { data: [{ embedding: [1], index: 0 }] } }, nullUsage: { json: { data: [{ embedding: [1], index: 0 }], usage: null } }, oddUsage: { json: { data: [{ embedding: [1], index: 0 }], usage: {} } },
  badJson: { text: '{oops' }, s400: { status: 400, text: 'no' }, s429: { headers: { 'retry-after': '1' }, status: 429, text: '' }, s503: { status: 503, text: 'down' }, empty: { nullBody: true }, network: { reject: new TypeError('fetch failed') }, string: { reject: 'offline' }, silent: { reject: new Error('') }, timeout: { reject: new DOMException('late', 'TimeoutError') },
}

const ODD_TURNS = [
  { parts: [{ text: 'a', type: 'text' }] }, { parts: [{ text: 'a', type: 'text' }, { text: '', type: 'text' }, { refusal: 'no', type: 'refusal' }, { text: 'b\n', type: 'text' }] }, { parts: [{ refusal: 'no', type: 'refusal' }] }, { parts: [] },
  { refusal: 'I will not', text: null }, { refusal: 'no' }, { reasoning: '', text: '' }, { reasoning: 'r', rf: 'reasoning', text: 'é\u2028' }, { extra: { annotations: [], audio: null, vendor: { a: 1 } }, text: 'x' }, { extra: { tool_calls: [] }, text: 'x' }, { extra: { role: 'model' }, text: '<think>y</think>' },
  { moreChoices: [{ finish_reason: 'stop', index: 1, message: { content: 'second', role: 'assistant' } }], text: 'first' },
]

export default {
  id: 'C23',
  bundle: 'telemetry',
  block: 8,
  dev: { quick: 0, thorough: 1 },
  bounds: {
    quick: 'plain and telemetry versions side by side over: all histories of up to 2 tool turns (7 shapes) x 6 stop conditions and a final turn (4 shapes); 10x5 hook combinations; 5 option sets x 5 transcripts; validators, 26 result kinds, tools that are instances of classes, foreign promises; prepare-step overrides; all legal delta sequences up to length 2 over the 18-symbol alphabet; failures of 8 kinds at each step; 6 callbacks throwing 7 kinds of values; aborts inside every callback; embeddings x 16 answers x 5 inputs; with and without an installed tracer; completion orders within 1 deviation where tools are deferred',
    thorough: 'histories of up to 3 tool turns, delta sequences up to length 3; 1 deviation everywhere',
  },
  * scenarios(tier) {
    const Tn = Object.keys(TOOL_TURNS); const F = Object.keys(FINAL_TURNS); const deep = tier === 'thorough'
    for (const api of ['embed', 'embedMany']) for (const answer of Object.keys(EMBED)) for (const extra of [{}, { dimensions: 2 }, { apiKey: 'k', telemetry: { attributes: { a: 1 } } }]) for (const tracer of [true, false]) yield { answer, api, extra, tracer }
    for (const api of ['embed', 'embedMany']) for (const abort of ['before', 'during', 'before default', 'during default', 'during timeout']) yield { abort, answer: 'normal', api, extra: {}, tracer: true }
    for (const api of ['gen', 'stream']) {
      const mk = (seq, f, extra) => ({ api, messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, tracer: true, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), FINAL_TURNS[f]], ...extra })
      for (const seq of sequences(Tn, deep ? 3 : 2)) for (const f of seq.length > 1 ? ['text'] : F) for (const stop of STOPS) yield mk(seq, f, { stop, tracer: seq.length !== 1 })
      for (const k of Tn) for (const tracer of [true, false]) yield mk([k], 'text', { dev: 1, tracer })
      for (const m of Object.keys(MESSAGES)) for (const options of OPTIONS) for (const k of [[], ['two']]) yield mk(k, 'text', { messages: MESSAGES[m], options })
      for (const toolChoice of CHOICES) for (const k of [[], ['two']]) for (const prep of [undefined, {}]) yield mk(k, 'text', { options: { toolChoice }, prep })
      for (const seq of sequences(Tn, 2, 1)) yield mk(seq, 'text', { dev: 1, tools: VALIDATED })
      for (const validate of [undefined, 'value', 'valueAsync', 'strip', 'issues', 'throw']) for (const kind of ['obj', 'throwErr']) for (const k of Tn) yield mk([k], 'text', { tools: [{ form: 'class', kind, name: 'a', validate }, { form: 'class', mode: 'then', name: 'b', validate }] })
      for (const validate of ['value', 'valueAsync', 'strip', 'undef', 'issues', 'issuesAsync', 'throw', 'big', 'circ', 'fn', 'noissues']) for (const kind of ['obj', 'throwErr', 'undef']) for (const k of Tn) yield mk([k], 'text', { tools: [{ kind, name: 'a', validate }, { name: 'b' }] })
      for (const kind of ['echo', 'nested', 'parts', 'mixed', 'untyped', 'strings', 'nullitem', 'empty', 'json', 'unicode', 'big', 'circ', 'fn', 'nul', 'num', 'undef', 'throwErr', 'rejectErr', 'throwStr', 'mutate', 'date', 'money', 'ownJson', 'toText', 'boxed', 'lone']) for (const mode of ['sync', 'async', 'defer', 'then']) yield mk(['two', 'one'], 'text', { tools: [{ kind, mode, name: 'a' }, { mode: 'sync', name: 'b' }] })
      // the messages a tool is given are those of the run
      for (const k of Tn) for (const validate of [undefined, 'value']) yield mk([k, 'one'], 'text', { tools: [{ kind: 'tell', mode: 'sync', name: 'a', validate }, { kind: 'tell', mode: 'sync', name: 'b' }, { mode: 'sync', name: 'p' }] })
      for (const [pre, post] of product([[undefined, 'void', 'args', 'badargs', 'name', 'noname', 'result', 'strresult', 'throw', 'throwStr', 'badId'], [undefined, 'replace', 'obj', 'throw', 'badId']])) for (const k of ['one', 'two', 'three']) {
        yield mk([k, 'one'], 'text', { post, pre })
        yield mk([k], 'text', { dev: 1, post: post && { async: true, k: post }, pre: pre && { async: true, k: pre }, tools: VALIDATED })
        if (k === 'two') yield mk([k], 'text', { post: post && { async: 'then', k: post }, pre: pre && { async: 'then', k: pre } })
      }
      for (const seq of sequences(Tn, 2, 1)) for (const p of [{ model: 'alt' }, ...CHOICES.map(toolChoice => ({ toolChoice })), { input: 'last' }, { input: 'prefix', mutate: true }, { ret: 'undefined' }, { async: true, model: 'alt' }, { async: 'then', model: 'alt' }]) yield mk(seq, 'text', { prep: { per: [{}, p, {}] } })
      // answers whose content is a list of parts, refusals, several choices, odd fields
      for (const odd of ODD_TURNS) for (const f of [undefined, 'length', 'content_filter']) for (const usage of [[1, 2, 3], [0, 3, 0]]) for (const k of [[], ['one']]) {
        const at = { ...odd, finish: f, usage }
        yield { ...mk(k, 'text'), turns: [...k.map((x, i) => TOOL_TURNS[x](i)), at] }
        yield { ...mk(k, 'text'), turns: [...k.map((x, i) => TOOL_TURNS[x](i)), { ...at, calls: TOOL_TURNS.two(5).calls }, FINAL_TURNS.text] }
      }
      for (const o of Object.keys(ODD_CALLS)) for (const k of Tn) yield { ...mk([k], 'text'), turns: [withCalls(TOOL_TURNS[k](0), ODD_CALLS[o]), FINAL_TURNS.text] }
      for (const t of [undefined, []]) for (const k of [[], ...Tn.map(k => [k])]) yield mk(k, 'text', { tools: t })
      if (api === 'stream') for (const seq of sequences(Object.keys(D), deep ? 3 : 2, 1)) if (legal(seq)) yield mk([], 'text', { turns: [turnOf(seq, true), { text: 'done' }] })
      for (const seq of sequences(['one', 'two'], 2)) {
        const T = seq.map((k, i) => TOOL_TURNS[k](i))
        const bad = a => ({ ...mk(seq, 'text'), turns: [...T, { answer: a }] })
        for (const status of [400, 503]) yield bad({ auto: true, status, text: 'down' })
        yield bad({ auto: true, nullBody: true })
        yield bad({ reject: 'offline' })
        yield bad({ auto: true, text: '{oops' })
        yield bad({ auto: true, json: { choices: [] } })
        yield bad({ auto: true, json: { choices: [], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } } })
        yield bad({ auto: true, json: null })
        for (const cut of [1, 3]) for (const end of ['data: {"error":{"message":"gone"}}\n\n', 'data: {oops\n\n']) yield bad({ auto: true, headers: { 'content-type': 'text/event-stream' }, text: sseText(streamChunks(TOOL_TURNS.three(0)).slice(0, cut), { done: false }) + end })
        for (const cb of ['stop', 'prep', 'stepFinish', 'finish', 'event', 'fetch']) for (const e of Object.keys(THROWN)) for (let at = 0; at <= seq.length; at++) yield { ...mk(seq, 'text'), e, throwAt: [cb, at] }
        for (const cb of ['stop', 'prep', 'stepFinish', 'event', 'fetch', 'tool', 'pre', 'post', 'answer']) for (let at = 0; at <= seq.length; at++) for (const post of [undefined, 'replace']) yield { ...mk(seq, 'text', { post, pre: post && 'void', prep: {} }), abortAt: [cb, at] }
        for (const cb of ['fetch', 'tool', 'answer']) for (let at = 0; at <= seq.length; at++) for (const reason of ['default', 'timeout']) yield { ...mk(seq, 'text'), abortAt: [cb, at, reason] }
      }
      for (const c of [{ args: '{}', id: 'z' }, ...(api === 'gen' ? [{ id: 'z', name: 'a' }] : [])]) for (const k of [[], ['one']]) yield { ...mk(k, 'text'), turns: [...k.map((x, i) => TOOL_TURNS[x](i)), { calls: [c], text: null, usage: [1, 2, 3] }] }
    }
  },
  async execute(env, s) {
    if (s.tracer) installTracer(env)
    const views = []
    for (const lib of [env.lib.plain, env.lib.telemetry]) {
      env.stage = views.length
      // not an option of the plain version, which would send it to the server
      const { telemetry: _, ...options } = s.options ?? s.extra ?? {}
      const own = lib === env.lib.telemetry ? s : { ...s, [s.answer ? 'extra' : 'options']: options }
      views.push(s.answer ? await embedRun(env, own, lib) : await chatRun(env, own, lib))
    }
    const [a, b] = views
    for (const k of Object.keys(a)) env.check(canon(a[k]) === canon(b[k]) || (s.throwAt && alikeUpToFailure(a[k], b[k])), `${k}: the plain version gives ${canon(a[k])}, the telemetry version ${canon(b[k])}`)
    return canon(a)
  },
}

async function embedRun(env, s, lib) {
  const seen = []
  const ctl = new AbortController()
  const why = s.abort?.endsWith('default') ? undefined : s.abort?.endsWith('timeout') ? REASONS.timeout() : 'stop'
  if (s.abort?.startsWith('before')) ctl.abort(why)
  const input = s.api === 'embed' ? 'text é' : ['a', 'b é']
  const o = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetchWith(() => ({ auto: true, ...EMBED[s.answer] }), i, init, r => seen.push([r.url, r.method, r.headers, r.json])), input, model: 'm', ...s.extra, ...(s.abort ? { abortSignal: ctl.signal } : {}) }
  if (s.abort?.startsWith('during')) env.onRequest = () => ctl.abort(why)
  const r = env.watch(lib[s.api](o), 'embed')
  await env.run()
  env.onRequest = undefined
  return { requests: seen, result: promise(r) }
}

const REASONS = { default: () => undefined, own: () => new Error('user abort'), timeout: () => new DOMException('took too long', 'TimeoutError') }
/** makes the callbacks of a call abort it or throw where the scenario says so */
export function faults(s, ctl) {
  const counts = {}
  const at = (cb) => {
    const n = counts[cb] = (counts[cb] ?? -1) + 1
    if (s.abortAt?.[0] === cb && s.abortAt[1] === n) ctl.abort(REASONS[s.abortAt[2] ?? 'own']())
    if (s.throwAt?.[0] === cb && s.throwAt[1] === n) { patch.thrown = true; throw THROWN[s.e]() }
  }
  const wrap = (o, k, cb) => { const f = o[k]; if (f || cb === 'prep') o[k] = (...a) => { at(cb); return f?.(...a) } }
  const patch = (o) => {
    if (s.abortAt) o.abortSignal = ctl.signal
    if (!s.throwAt && !s.abortAt) return
    wrap(o, 'stopWhen', 'stop'); wrap(o, 'prepareStep', 'prep'); wrap(o, 'onStepFinish', 'stepFinish'); wrap(o, 'onFinish', 'finish'); wrap(o, 'onEvent', 'event'); wrap(o, 'preToolCall', 'pre'); wrap(o, 'postToolCall', 'post')
    for (const t of o.tools ?? []) wrap(t, 'execute', 'tool')
    const f = o.fetch; o.fetch = async (...a) => { at('fetch'); const r = await f(...a); at('answer'); return r }
  }
  return patch
}

async function chatRun(env, s, lib) {
  const ctl = new AbortController()
  const fault = faults(s, ctl)
  let server
  const h = startCall(env, s, s.api, { lib, patch: (o) => { fault(o); server = o } })
  await env.run()
  const obs = h.obs
  const hook = xs => sorted(xs.map(x => ({ ...x, signal: x.signal === undefined ? 'none' : x.signal === ctl.signal ? 'the caller\'s' : 'another' })))
  return {
    'executed tools': sorted(obs.execs.map(e => [e.name, e.id, e.input, e.messages, e.signal === undefined ? 'none' : e.signal === ctl.signal ? 'the caller\'s' : 'another'])),
    'post-tool hook calls': hook(obs.post), 'pre-tool hook calls': hook(obs.pre),
    'prepare-step calls': obs.preps,
    requests: obs.requests.map(r => [r.url, r.method, r.headers, r.json, r.signal === undefined || r.signal === null ? 'none' : r.signal === ctl.signal ? 'the caller\'s' : 'another']),
    'steps reported': obs.stepsSeen,
    'stop evaluations': obs.stops.map(({ at, ...x }) => x),
    validations: sorted(obs.validations),
    ...(s.api === 'gen' ? { result: promise(h.promise) } : { events: obs.events, 'event stream': stream(h.eventStream), finish: obs.finish.map(x => x ?? 'none'), 'full stream': stream(h.full), 'reasoning stream': stream(h.reasoning), 'text stream': stream(h.text), messages: promise(h.transcript), steps: promise(h.steps), totalUsage: promise(h.totalUsage), usage: promise(h.usage) }),
    'caller\'s messages': snapshot(server.messages),
  }
}

/** a tracer that only records; installed through the OpenTelemetry API like a user would */
export function installTracer(env, spans = [], onSpan = undefined) {
  const span = (name, options) => {
    const rec = { attributes: { ...options?.attributes }, ended: 0, events: [], exceptions: [], name, status: undefined }
    spans.push(rec)
    // like in an SDK, what is set on an ended span is lost
    const live = f => (...a) => { if (rec.ended === 0) f(...a); return sp }
    const sp = {
      addEvent: live((n, a) => rec.events.push([n, a])), addLink: () => sp, addLinks: () => sp,
      end: () => { rec.ended++; rec.onEnd?.() },
      isRecording: () => rec.ended === 0,
      recordException: live(e => rec.exceptions.push(e)),
      setAttribute: live((k, v) => { rec.attributes[k] = v }),
      setAttributes: live(a => Object.assign(rec.attributes, a)),
      setStatus: live((st) => { rec.status = st }),
      spanContext: () => ({ spanId: '1'.repeat(16), traceFlags: 1, traceId: '1'.repeat(32) }),
      updateName: live((n) => { rec.name = n }),
    }
    onSpan?.(rec)
    return sp
  }
  const tracer = { startActiveSpan: (name, a, b, c) => { const fn = c ?? b ?? a; const o = typeof a === 'function' ? undefined : a; return fn(span(name, o)) }, startSpan: span }
  env.lib.trace.setGlobalTracerProvider({ getTracer: () => tracer })
  return spans
}
