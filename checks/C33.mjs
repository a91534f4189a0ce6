import { genBody } from '../lib/chat.mjs'
import { canon, sequences } from '../lib/util.mjs'

const ATOMS = ['T', 'F', 'odd', 's0', 's1', 's2', 's3', 'i2', 'any', 'a', 'b', 'null', '=', '= a', '=A', '=ab', '=__proto__', '=0', 's1.5', 's2.001', 's-1', 's0.5', 'sInfinity', 'i1.5']
const CORE = ['T', 'F', 'odd', 's2', 'a', 'any']
const CALLS = [[], ['a'], ['b'], ['a', 'b'], ['c', 'a'], ['c'], ['A'], ['ab'], ['a', 'a', 'b'], [''], ['', 'a'], [' a'], ['a '], ['__proto__'], ['0']]
/** expression trees: an atom, ['not', e], ['and', ...es], ['or', ...es] */
function * exprs(T) {
  for (const a of ATOMS) { yield a; yield ['not', a]; yield ['not', ['not', a]] }
  for (const op of ['and', 'or']) for (const args of sequences(ATOMS, 2, 0)) yield [op, ...args]
  const C = T ? ATOMS : CORE
  for (const op of ['and', 'or']) for (const args of sequences(C, 3, 3)) yield [op, ...args]
  const small = [...CORE, ...CORE.map(a => ['not', a]), ['and'], ['or'], ...['and', 'or'].flatMap(op => [...sequences(T ? CORE : ['T', 'F', 'odd', 's2'], 2, 1)].map(x => [op, ...x]))]
  for (const a of small) { yield ['not', a]; for (const b of small) for (const op of ['and', 'or']) { yield [op, a, b]; yield ['not', [op, a, b]] } }
  for (const n of [4, 5, 8]) for (let i = 0; i < n; i++) for (const op of ['and', 'or']) yield [op, ...Array.from({ length: n }, (_, k) => (k === i) === (op === 'or') ? 'T' : 'F')]
}
const contexts = []
for (let n = 0; n <= 4; n++) for (const calls of CALLS) contexts.push([n, calls])

const value = (e, [n, calls]) => {
  if (!Array.isArray(e)) {
    if (e === 'T' || e === 'F') return e === 'T'
    if (e === 'odd') return n % 2 === 1
    if (e === 'any' || e === 'null') return calls.length > 0
    if (/^[si](?:-?[\d.]+|Infinity)$/.test(e)) return n >= Number(e.slice(1))
    return calls.includes(e[0] === '=' ? e.slice(1) : e)
  }
  const [op, ...es] = e
  let r = op === 'and'
  for (const x of es) { const v = value(x, [n, calls]); if (op === 'not') return !v; r = op === 'and' ? r && v : r || v }
  return r
}

export default {
  id: 'C33',
  bundle: 'small',
  bundles: ['core'],
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: 'all expressions: 24 atoms (with counts that are not whole, negative or infinite, and tool names that are empty, padded, prefixes or in another case), their (double) negations, conjunctions and disjunctions of up to 2 atoms, of 3 over 6, nested ones of depth 3 over 6 atoms and single-exception lists of up to 8, evaluated in 75 contexts (0 to 4 steps x 15 call lists), twice each; expressions of up to 2 atoms as the stop condition of generateText and streamText runs over 20 call histories',
    thorough: '3-argument and nested expressions over all atoms; run conditions up to depth 2',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    let batch = []
    for (const e of exprs(T)) { batch.push(e); if (batch.length === 200) { yield { exprs: batch }; batch = [] } }
    yield { exprs: batch }
    const hist = [...sequences(['a', 'b', 'ab', ''], 2, 1)].filter(h => h.slice(0, -1).every(x => x)).map(h => h.map(x => x.split('').filter(Boolean)))
    const simple = [...ATOMS, ...ATOMS.map(a => ['not', a]), ...['and', 'or'].flatMap(op => [...sequences(T ? ATOMS : ['T', 'F', 's2', 'a', 'b'], 2, 0)].map(x => [op, ...x])), ...(T ? ['and', 'or'].flatMap(op => [...sequences(CORE, 2, 2)].map(([a, b]) => [op, ['not', a], ['or', b, 'b']])) : [])]
    for (const run of ['gen', 'stream']) for (const e of simple) for (const calls of hist) yield { calls, e, run }
  },
  async execute(env, s) {
    const L = s.run ? env.instantiate(env.factories.core) : env.lib
    let seen
    const make = (e) => {
      if (!Array.isArray(e)) {
        if (e === 'T' || e === 'F') return (c) => { seen?.push(c); return e === 'T' }
        if (e === 'odd') return c => c.steps.length % 2 === 1
        if (e === 'any') return L.hasToolCall()
        if (e === 'null') return L.hasToolCall(null)
        if (e[0] === 's') return L.stepCountAtLeast(Number(e.slice(1)))
        if (e[0] === 'i') return (L.stepCountIs ?? L.stepCountAtLeast)(Number(e.slice(1)))
        return L.hasToolCall(e[0] === '=' ? e.slice(1) : e)
      }
      const [op, ...es] = e
      return L[op](...es.map(make))
    }
    if (s.run) return await run()
    for (const e of s.exprs) {
      const cond = make(e)
      for (let round = 0; round < 2; round++) for (const [n, calls] of contexts) {
        const step = { finishReason: 'stop', text: '', toolCalls: calls.map((toolName, i) => ({ args: '{}', toolCallId: `c${i}`, toolCallType: 'function', toolName })), toolResults: [] }
        const earlier = Array.from({ length: Math.max(0, n - 1) }, () => ({ ...step, toolCalls: [{ args: '{}', toolCallId: 'e', toolCallType: 'function', toolName: 'b' }] }))
        const ctx = Object.freeze({ input: [], step, steps: n ? [...earlier, step] : [] })
        seen = []
        const got = cond(ctx)
        const want = value(e, [n, calls])
        if (typeof got === 'boolean' ? got !== want : true) env.fail(`${JSON.stringify(e)} is ${canon(got)} instead of ${want} with ${n} steps and calls ${canon(calls)}`)
        for (const c of seen) env.check(c === ctx || canon(c) === canon(ctx), 'a part is given another context')
      }
    }
    return 'ok'

    async function run() {
      let n = 0
      const turns = s.calls
      const names = i => turns[i] ?? []
      env.server = () => {
        const calls = names(n++).map((name, k) => ({ args: '{}', id: `c${n}${k}`, name }))
        if (s.run === 'gen') return { auto: true, json: genBody({ calls: calls.length ? calls : undefined, text: calls.length ? undefined : 'end' }) }
        const d = calls.length ? [...calls.map((c, index) => ({ choices: [{ delta: { tool_calls: [{ function: { arguments: c.args, name: c.name }, id: c.id, index, type: 'function' }] }, index: 0 }] })), { choices: [{ delta: {}, finish_reason: 'tool_calls', index: 0 }] }] : [{ choices: [{ delta: { content: 'end' }, finish_reason: 'stop', index: 0 }] }]
        return { auto: true, chunks: [...d.map(x => `data: ${JSON.stringify(x)}\n\n`).concat('data: [DONE]\n\n')] }
      }
      env.autoFetch = true
      const tools = ['a', 'b'].map(name => ({ execute: () => 'r', function: { name, parameters: { type: 'object' } }, type: 'function' }))
      const o = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetch(i, init), messages: [{ content: 'x', role: 'user' }], model: 'm', stopWhen: make(s.e), tools }
      const r = s.run === 'gen' ? L.generateText(o) : L.streamText(o)
      const steps = env.watch(s.run === 'gen' ? r.then(x => x.steps) : r.steps, 'steps')
      if (s.run === 'stream') { for (const k of ['messages', 'usage', 'totalUsage']) r[k].catch(() => {}); for (const k of ['textStream', 'fullStream', 'eventStream', 'reasoningTextStream']) env.collect(r[k], k) }
      await env.run()
      // the run goes on after a step with calls exactly when the condition does not hold
      let want = 0
      for (;;) { want++; const calls = names(want - 1); if (calls.length === 0 || value(s.e, [want, calls])) break }
      env.check(steps.settled && steps.ok, `the run ${steps.settled ? `fails with ${canon(steps.error)}` : 'never settles'}`)
      env.expect(steps.value.length, want, `steps of a run with condition ${JSON.stringify(s.e)} over ${canon(turns)}`)
      return `run${want}`
    }
  },
}
