import { newObs, outcome, respEvents, respSse, sseText, startCall, streamChunks } from '../lib/chat.mjs'
import { reference } from '../lib/env.mjs'
import { canon, product } from '../lib/util.mjs'

const STREAMS = ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream']
const MODES = ['full', 'never', 'cancel0', 'read1stop', 'read1cancel', 'cancelAt', 'cancelAtUnread']
const TURNS = {
  plain: [{ reasoning: 'why', text: 'hello', usage: [1, 1, 2] }],
  tools: [{ calls: [{ args: '{"x":"1"}', id: 'c1', name: 'a' }], reasoning: 'r', text: 'go', usage: [1, 2, 3] }, { text: 'done', usage: [2, 2, 4] }],
  none: [{ text: '', usage: [1, 0, 1] }],
  // far more deltas than any reasonable buffer holds
  long: [{ calls: [{ args: JSON.stringify({ x: 'y'.repeat(800) }), id: 'c1', name: 'a' }], reasoning: 'because '.repeat(100), split: 400, text: 'word '.repeat(160), usage: [1, 2, 3] }, { split: 400, text: 'end '.repeat(200), usage: [2, 2, 4] }],
  huge: [{ calls: [{ args: JSON.stringify({ x: 'y'.repeat(5000) }), id: 'c1', name: 'a' }], reasoning: 'z'.repeat(5000), split: 5000, text: 'w'.repeat(5000), usage: [1, 2, 3] }, { text: 'end', usage: [2, 2, 4] }],
  fail: [{ text: 'partial', usage: [1, 1, 2], bad: true }],
}
const piecesOf = (proto, t, n) => {
  const text = proto === 'stream' ? sseText(streamChunks(t), { done: !t.bad }) : respSse(respEvents(t, n).slice(0, t.bad ? 5 : undefined), { done: !t.bad })
  return (t.bad ? `${text}data: {"bad\n\n` : text).split(/(?<=\n\n)/)
}
const consume = (env, stream, mode, name) => {
  const rec = { items: [], mode }
  if (mode === 'never' || mode === 'late') return rec
  if (mode === 'cancel0') { rec.cancel = env.watch(stream.cancel('not needed'), `${name}.cancel`); return rec }
  if (mode === 'cancelAtUnread') { env.action(`cancel:${name}`, () => { rec.cancel = env.watch(stream.cancel('late'), `${name}.cancel`) }, { optional: true }); return rec }
  const reader = stream.getReader()
  const limit = mode.startsWith('read1') ? 1 : Infinity
  if (mode === 'cancelAt') env.action(`cancel:${name}`, () => { rec.stopped = true; rec.cancel = env.watch(reader.cancel('enough'), `${name}.cancel`) }, { optional: true })
  const loop = async () => {
    while (rec.items.length < limit) {
      const { done, value } = await reader.read()
      if (done) { rec.done = true; return }
      rec.items.push(structuredClone(value)); env.log(name, value)
    }
    if (mode === 'read1cancel') { rec.stopped = true; rec.cancel = env.watch(reader.cancel(), `${name}.cancel`) }
  }
  loop().catch((e) => { rec.failed = true; rec.error = e; env.log(name, 'err', e) })
  return rec
}
const go = async (env, s, modes) => {
  const obs = newObs()
  const h = startCall(env, { messages: [{ content: 'hi', role: 'user' }], stop: { k: 'never' }, tools: [{ mode: s.slowTool ? undefined : 'sync', name: 'a' }], traced: s.traced, turns: TURNS[s.turns] }, s.proto, {
    autoBody: s.auto ?? true,
    chunking: (_, n) => { const p = piecesOf(s.proto, TURNS[s.turns][n], n); return s.turns === 'huge' ? [p.join('')] : p },
    noConsume: true,
    obs,
  })
  const recs = STREAMS.map((k, i) => consume(env, h.result[k], modes[i], k))
  await env.run()
  // streams that are only read once everything is over still deliver it all
  modes.forEach((m, i) => { if (m === 'late') { recs[i] = consume(env, h.result[STREAMS[i]], 'full', STREAMS[i]); recs[i].mode = 'late' } })
  await env.settle()
  const r = outcome(env, h)
  return { finish: obs.finish.length, ok: r.ok, recs, results: canon(r.ok ? [r.steps, r.usage, r.totalUsage, r.transcript.map(({ id, ...x }) => x)] : [r.error.name, r.error.message]), seen: canon([obs.events, obs.stepsSeen, obs.execs.map(e => e.id), obs.requests.length]) }
}

export default {
  id: 'C11',
  traced: { quick: 0, thorough: 1, only: (s, tier) => s.auto && (tier === 'thorough' || ['tools', 'fail'].includes(s.turns)) },
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: 'full product of 7 consumption modes on the 4 result streams x 4 runs x 2 APIs; cancellation of every subset of the streams at every pair of scheduling points (2 deviations for pairs, 1 for larger subsets) with the body arriving piece by piece; traced runs with late readers',
    thorough: 'the same with 3 deviations and slow bodies for the whole product',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const proto of ['stream', 'resp']) {
      for (const turns of Object.keys(TURNS)) {
        if (turns === 'huge') {
          for (const late of ['all', 0, 1, 2, 3]) yield { auto: true, dev: 0, modes: STREAMS.map((_, i) => late === 'all' || late === i ? 'late' : 'never'), proto, turns }
          continue
        }
        // late readers; runs with more deltas than any buffer would hold
        for (const modes of product(STREAMS.map(() => turns === 'long' ? ['full', 'never', 'late', 'cancel0'] : ['full', 'late', 'never']))) if (modes.includes('late')) yield { auto: true, dev: 0, modes, proto, turns }
        if (turns === 'long') {
          for (const modes of product(STREAMS.map(() => ['full', 'never', 'cancel0', 'read1cancel']))) yield { auto: true, dev: 0, modes, proto, turns }
          continue
        }
        for (const modes of product(STREAMS.map(() => MODES))) {
          const cancels = modes.filter(x => x.startsWith('cancelAt')).length
          if (!cancels) { yield { auto: false, dev: 0, modes, proto, turns }; continue }
          // timed cancellations: combined with complete or absent readers
          if (modes.every(x => x.startsWith('cancelAt') || x === 'full' || x === 'never')) {
            const few = modes.filter(x => x === 'never').length === 0
            if (few || T || cancels === 1) yield { auto: false, dev: T ? Math.min(cancels, 3) : few && cancels === 2 ? 2 : 1, modes, proto, turns }
          }
        }
      }
      yield { auto: false, dev: 2, modes: ['cancelAt', 'full', 'cancelAt', 'full'], proto, slowTool: true, turns: 'tools' }
    }
  },
  async execute(env, s) {
    const ref = await reference(env, canon([s.proto, s.turns, !!s.traced]), e => go(e, { ...s, auto: false, slowTool: false }, STREAMS.map(() => 'full')))
    const got = await go(env, s, s.modes)
    env.check(got.results === ref.results, `the promises depend on how the streams are consumed (${s.modes}): ${got.results} instead of ${ref.results}`)
    env.check(got.seen === ref.seen, `callbacks, tools or requests depend on how the streams are consumed (${s.modes}): ${got.seen} instead of ${ref.seen}`)
    env.check(got.finish === 1, `onFinish ran ${got.finish} times`)
    got.recs.forEach((r, i) => {
      const want = ref.recs[i]; const name = STREAMS[i]
      if (r.mode === 'full' || r.mode === 'late' || (r.mode === 'cancelAt' && !r.stopped)) {
        // a stream that has failed forgets what was not read before
        env.expect(r.items, r.mode === 'late' && want.failed ? want.items.slice(0, r.items.length) : want.items, `${name} (others: ${s.modes})`)
        env.check(!!r.done === !!want.done && !!r.failed === !!want.failed, `${name} should ${want.done ? 'end' : 'fail'}, done ${r.done} failed ${r.failed}`)
      }
      else {
        env.expect(r.items, want.items.slice(0, r.items.length), `${name}: part read`)
        if (r.mode === 'read1cancel' || r.mode === 'read1stop') env.check(r.items.length === Math.min(1, want.items.length), `${name}: first item was not delivered`)
        env.check(!r.failed || want.failed, `${name}: reading fails with ${canon(r.error)}`)
      }
      if (r.cancel) env.check(r.cancel.settled && (r.cancel.ok || want.failed), `${name}: cancel does not settle cleanly`)
    })
    return canon(got.recs.map(r => r.items.length))
  },
}
