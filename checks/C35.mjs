import { KINDS, optionsFor } from '../lib/kinds.mjs'
import { genBody } from '../lib/chat.mjs'
import { schema } from '../lib/kinds.mjs'
import { canon, subsets } from '../lib/util.mjs'

const LOOP = { promises: ['messages', 'steps', 'usage', 'totalUsage'], streams: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'] }
const OUT = {
  elements: { promises: LOOP.promises, streams: ['elementStream', ...LOOP.streams] },
  partial: { promises: LOOP.promises, streams: ['partialObjectStream', ...LOOP.streams] },
  resp: { promises: ['input', 'steps', 'usage', 'totalUsage'], streams: LOOP.streams },
  speechStream: { promises: ['usage'], streams: ['fullStream'] },
  stream: LOOP,
  telemetry: LOOP,
  transcriptionStream: { promises: ['text'], streams: ['fullStream', 'textStream'] },
}
const FN = { elements: 'streamObject', partial: 'streamObject', resp: 'responses', speechStream: 'streamSpeech', stream: 'streamText', telemetry: 'streamText', transcriptionStream: 'streamTranscription' }
const ASYNC = ['elements', 'partial', 'speechStream']
const TWO = ['resp', 'stream', 'telemetry']
const PLAIN = ['gen', 'genobj', 'embed', 'embedMany', 'image', 'speech', 'transcription', 'models', 'model']
const ERRS = { err: () => new Error('gone'), nul: () => null, str: () => 'gone' }
const kindOf = k => k === 'telemetry' ? 'stream' : k === 'telemetryGen' ? 'gen' : k
/** calls that go wrong one way or another, or are answered by a hook before they can: part of a run that succeeds */
const WRONG = {
  ghost: o => { o.tools = o.tools.map(t => ({ ...t, function: { ...t.function, name: `${t.function.name}_` } })) },
  invalid: (o, env) => { o.tools = o.tools.map(t => ({ ...t, validate: () => env.defer('validate', () => ({ issues: [{ message: 'bad' }] })) })) },
  invalidThrows: (o, env) => { o.tools = o.tools.map(t => ({ ...t, validate: () => env.defer('validate', () => { throw new Error('bad') }) })) },
  none: o => { o.tools = [] },
  rejects: (o, env) => { o.tools = o.tools.map(t => ({ ...t, execute: () => env.defer('tool', () => { throw new Error('bad') }) })) },
  rejectsNow: o => { o.tools = o.tools.map(t => ({ ...t, execute: async () => { throw new Error('bad') } })) },
  throws: o => { o.tools = o.tools.map(t => ({ ...t, execute: () => { throw new Error('bad') } })) },
}
const BEFORE = {
  answer: env => c => env.defer('pre', () => ({ result: 'instead', toolCallId: c.toolCallId, toolName: c.toolName })),
  answerNow: () => async c => ({ isError: false, result: 'instead', toolCallId: c.toolCallId, toolName: c.toolName }),
  fails: env => () => env.defer('pre', () => { throw new Error('hook') }),
  failsNow: () => async () => { throw new Error('hook') },
  nothing: env => () => env.defer('pre', () => {}),
  none: () => undefined,
  throws: () => () => { throw new Error('hook') },
}

export default {
  id: 'C35',
  bundle: 'core',
  bundles: ['telemetry'],
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '7 streaming calls (traced ones too) x 13 failures at each of their requests (rejected, failing status, missing body, malformed or error message, body failing before and after data, abort, throwing callbacks) x what the caller handles: each single output, all but each one, all, each promise only after a stream failed; 9 other calls x failures of each of their requests; two tool calls of which either or both end the run, with slow hooks; 7 ways in which a tool call goes wrong x 19 pairs of hooks that answer, fail or wait; every subset of up to 3 elements of generateObject found invalid in any order, in 4 ways; abort and completion orders within 1 deviation',
    thorough: '2 deviations and every pair of handled outputs',
  },
  * scenarios(tier) {
    for (const kind of Object.keys(OUT)) {
      const { promises, streams } = OUT[kind]
      const all = [...promises, ...streams]
      const takes = [...all.map(x => [x]), ...all.map(x => all.filter(y => y !== x)), all]
      if (tier === 'thorough') for (const a of all) for (const b of all) if (a < b) takes.push([a, b])
      for (const take of takes) {
        for (const at of TWO.includes(kind) ? [0, 1] : [0]) {
          for (const e of Object.keys(ERRS)) for (const fail of ['fetch', 'body0', 'body1']) if (e === 'err' || take.length === 1) yield { at, e, fail, kind, take }
          for (const fail of ['status', 'nobody', 'malformed', 'errmsg']) yield { at, fail, kind, take }
        }
        if (kind !== 'speechStream' && kind !== 'transcriptionStream') for (const fail of ['onFinish', 'onEvent', 'prepareStep', 'stopWhen']) yield { at: 0, e: 'err', fail, kind, take }
        yield { at: 0, fail: 'abort', kind, take }
        yield { at: 0, dev: 0, fail: 'none', kind, take }
      }
      for (const p of promises) for (const st of streams) for (const fail of ['fetch', 'status', 'malformed', 'body1']) yield { at: 0, e: 'err', fail, kind, late: p, take: [st] }
    }
    for (const kind of PLAIN) for (const at of ['gen', 'genobj'].includes(kind) ? [0, 1] : kind === 'image' ? [0, 1, 2] : [0]) {
      for (const e of Object.keys(ERRS)) for (const fail of ['fetch', 'body0']) yield { at, e, fail, kind, plain: true }
      for (const fail of ['status', 'nobody', 'malformed', 'abort']) yield { at, fail, kind, plain: true }
      // both downloads fail
      if (kind === 'image' && at === 1) for (const e of Object.keys(ERRS)) yield { at, e, fail: 'fetch', kind, onwards: true, plain: true }
    }
    // callbacks that fail later than they return
    for (const kind of ['stream', 'resp', 'telemetry', 'elements']) for (const later of ['onEvent', 'onStepFinish', 'onFinish']) for (const take of [['textStream'], ['steps'], [...OUT[kind].promises, ...OUT[kind].streams]]) yield { at: -1, e: 'err', fail: 'later', kind, later, take }
    yield { at: -1, e: 'err', fail: 'later', kind: 'gen', later: 'onStepFinish', plain: true }
    // validators that say no, each in its own time
    for (const n of [1, 2, 3]) for (const bad of subsets(Array.from({ length: n }, (_, i) => i))) for (const how of ['reject', 'issues', 'sync', 'throw']) yield { at: -1, bad, dev: 2, fail: 'validate', how, kind: 'genobj', n, plain: true }
    for (const kind of ['gen', 'telemetryGen', 'genobj', 'stream', 'resp', 'telemetry']) for (const wrong of Object.keys(WRONG)) for (const before of Object.keys(BEFORE)) for (const after of ['none', 'fails', 'failsNow', 'nothing']) if (after === 'none' || before === 'none' || before === 'answer') yield { after, at: -1, before, fail: 'calls', kind, wrong, ...(kind.includes('en') && !['telemetry'].includes(kind) ? { plain: true } : { take: ['textStream'] }) }
    for (const kind of ['gen', 'genobj', 'stream', 'resp', 'telemetry']) for (const hook of ['preToolCall', 'postToolCall']) for (const which of ['first', 'second', 'both']) for (const slow of [undefined, 'first', 'second', 'both']) yield { hook, kind, slow, ...(kind.startsWith('gen') ? { plain: true } : { take: ['textStream'] }), at: -1, dev: slow ? 2 : undefined, fail: 'hook', which }
  },
  async execute(env, s) {
    const ns = s.kind.startsWith('telemetry') ? env.instantiate(env.factories.telemetry).telemetry : env.lib
    const kind = kindOf(s.kind)
    const ctl = new AbortController()
    const thrown = s.e ? ERRS[s.e]() : undefined
    const server = KINDS[kind].server('A')
    let n = 0
    const answer = (rec) => {
      const k = n++
      const hit = s.onwards ? k >= s.at : k === s.at
      const ok = server(rec)
      if (!hit) return ok
      switch (s.fail) {
        case 'fetch': throw thrown
        case 'status': return { auto: true, status: 500, text: 'no' }
        case 'nobody': return { nullBody: true }
        case 'malformed': return ok.chunks ? { ...ok, chunks: [ok.chunks[0], 'data: {oops\n\n'] } : { auto: true, text: '{oops' }
        case 'errmsg': return { ...ok, chunks: ['data: {"error":{"message":"x"}}\n\n'] }
        case 'body0': return { chunks: [], error: thrown, headers: ok.headers }
        case 'body1': return { chunks: ok.chunks.slice(0, 2), error: thrown, headers: ok.headers }
        default: return ok
      }
    }
    const { o } = optionsFor(env, kind, 'A', { fetch: (i, init) => env.fetchWith(answer, i, init), ...(s.fail === 'abort' ? { abortSignal: ctl.signal } : {}) })
    if (['onEvent', 'onFinish', 'prepareStep', 'stopWhen'].includes(s.fail)) o[s.fail] = () => { throw thrown }
    if (s.fail === 'validate') {
      o.fetch = (i, init) => env.fetchWith(() => ({ auto: true, json: genBody({ text: JSON.stringify({ elements: Array.from({ length: s.n }, (_, k) => k) }) }) }), i, init)
      o.schema = schema((v) => {
        const judge = () => { if (!s.bad.includes(v)) return { value: v }; if (s.how === 'issues' || s.how === 'sync') return { issues: [{ message: `bad ${v}` }] }; throw new Error(`bad ${v}`) }
        return s.how === 'sync' ? judge() : s.how === 'throw' && v === 0 ? judge() : env.defer(`validate:${v}`, judge)
      })
    }
    if (s.later) { let first = true; o[s.later] = async () => { if (first) { first = false; await env.defer(s.later); throw thrown } } }
    if (s.fail === 'hook') o[s.hook] = (c) => { const i = c.toolCallId.endsWith('c1') ? 'first' : 'second'; const v = s.which === 'both' || s.which === i ? { ...c, toolCallId: 'other' } : undefined; return s.slow === 'both' || s.slow === i ? env.defer(`hook:${i}`, () => v) : v }
    if (s.fail === 'calls') { WRONG[s.wrong](o, env); o.preToolCall = BEFORE[s.before](env); o.postToolCall = BEFORE[s.after](env) }
    if (s.fail === 'abort') env.action('abort', () => ctl.abort(new Error('stop')), { optional: true })
    const handled = {}
    if (s.plain) {
      handled.call = KINDS[kind].start(env, ns, o, 'A').result
      await quiet()
      env.check(handled.call.settled, 'the call never settles')
      if (s.fail === 'calls') env.check(handled.call.ok || s.kind === 'genobj', `the call fails with ${canon(handled.call.error)} although a failing tool is answered with an error`)
      if (s.fail === 'validate') env.check(handled.call.ok === (s.bad.length === 0), `the call ${handled.call.ok ? 'succeeds' : `fails with ${canon(handled.call.error)}`} although elements ${canon(s.bad)} are invalid`)
    }
    else {
      const take = (r) => {
        for (const k of s.take) {
          if (OUT[s.kind].promises.includes(k)) handled[k] = env.watch(r[k], k)
          else handled[k] = env.collect(r[k], k)
        }
        // the caller turns to a promise only once its stream is over
        if (s.late) handled[s.take[0]].finished.then(() => env.action('late', () => { handled.late = env.watch(r[s.late], s.late) }))
      }
      if (ASYNC.includes(s.kind)) { const c = env.watch(ns[FN[s.kind]](o), 'call'); c.promise.then(take, () => {}); handled.call = c }
      else take(ns[FN[s.kind]](o))
      await quiet()
      // streamed speech is read on demand
      for (const k in handled) if (s.kind !== 'speechStream' || s.take.includes('fullStream')) env.check(handled[k].settled || handled[k].done || handled[k].failed, `${k} never settles`)
      if (s.late && handled.late && s.fail !== 'onFinish' && handled[s.take[0]].failed) env.check(!handled.late.ok, `the ${s.late} promise resolves although the run failed`)
    }
    const callback = s.later && s.later !== 'onFinish' && !s.plain
    if (callback && env.unhandled.length > 0 && env.unhandled.every(e => e === thrown)) env.fail(`the rejection of an asynchronous ${s.later} callback of a ${s.kind} run reaches the process`, undefined, `async-${s.later}-${s.kind}`)
    env.check(env.unhandled.length === 0, `${env.unhandled.length} rejection(s) reach the process although the caller handles ${s.plain ? 'the call' : s.take.join(', ')}: ${canon(env.unhandled.map(e => e instanceof Error ? `${e.name}: ${e.message}` : e).slice(0, 2))}`)
    return canon(Object.keys(handled).map(k => [k, handled[k].ok ?? handled[k].done]))

    async function quiet() {
      await env.run()
      for (let i = 0; i < 2; i++) await env.settle()
    }
  },
}
