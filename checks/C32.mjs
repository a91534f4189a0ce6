import { SCHEMAS, deepFreeze, ownSchema, strictOf } from '../lib/jsonschema.mjs'
import { genBody } from '../lib/chat.mjs'
import { canon, sequences } from '../lib/util.mjs'

// every schema tree of depth up to 2 over these leaves and shapes
const LEAVES = { any: {}, arr: { items: { properties: { k: { type: 'string' } }, type: 'object' }, type: 'array' }, nul: null, num: { type: 'number' }, obj: { type: 'object' }, union: { anyOf: [{ properties: { q: { type: 'string' } }, type: 'object' }, { type: 'null' }], type: ['object', 'null'] }, yes: true }
const wrap = { closed: p => ({ additionalProperties: false, properties: p, type: 'object' }), open: p => ({ additionalProperties: true, description: 'd', properties: p, required: Object.keys(p).slice(0, 1), type: 'object' }), plain: p => ({ properties: p, type: 'object' }), untyped: p => ({ properties: p }) }
function * trees() {
  const L = Object.keys(LEAVES); const W = Object.keys(wrap)
  for (const w of W) for (const ls of sequences(L, 2, 1)) yield [w, ...ls]
  for (const w of W) for (const w2 of W) for (const l of L) for (const side of [undefined, 'num', 'obj']) yield [w, [w2, l], ...(side ? [side] : [])]
  for (const w of W) for (const w2 of W) for (const w3 of W) yield [w, [w2, [w3, 'num'], 'obj'], [w3, 'any']]
}
const NAMES = ['type', 'properties', 'x']
const build = t => Array.isArray(t) ? wrap[t[0]](Object.fromEntries(t.slice(1).map((x, i) => [NAMES[i], build(x)]))) : LEAVES[t]
const clone = v => v === undefined ? undefined : JSON.parse(JSON.stringify(v))
const schemaOf = s => s.schema ? SCHEMAS[s.schema] : build(s.tree)
const strict1 = s => s === undefined || s === null || typeof s !== 'object' ? s : strictOf(s)

const VALIDATE = {
  coerce: v => ({ value: { coerced: v } }),
  falsy: () => ({ value: 0 }),
  issues: () => ({ issues: [{ message: 'bad n', path: ['n'] }, { message: 'bad m' }] }),
  issueNoMessage: () => ({ issues: [{}] }),
  nul: () => ({ value: null }),
  ok: v => ({ value: v }),
  onlyObjects: v => v && typeof v === 'object' && !Array.isArray(v) && 'n' in v ? { value: { ...v, n: Number(v.n) } } : { issues: [{ message: `no n in ${JSON.stringify(v)}` }] },
  throws: () => { throw new TypeError('validator broke') },
  undef: () => ({ value: undefined }),
}
const INPUTS = { arr: [1, { n: 2 }], bad: { m: 1 }, deep: { n: '3', x: { y: [null] } }, empty: {}, nul: null, num: 5, str: 'text', yes: true }
const HOW = ['defineTool', 'tool', 'rawTool']

export default {
  id: 'C32',
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '3 ways of defining a tool x strict absent/true/false x (14 hand-picked schemas and all schema trees of depth up to 3 over 4 object shapes and 7 leaves); 4 descriptions; schemas that are class instances; 9 validators, synchronous and asynchronous, x 8 inputs, asked directly and through a run with hooks; up to 3 tools defined from one frozen schema; definition options frozen; schedules within 1 deviation',
    thorough: 'all of these sent through generateText, streamText and responses requests; 2 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const how of HOW) for (const strict of [undefined, true, false]) {
      for (const schema of Object.keys(SCHEMAS)) for (const description of [undefined, '', 'does it', ' \n\tdoes  it.\r\n']) yield { description, dev: 0, how, schema, strict }
      for (const tree of trees()) yield { dev: 0, how, strict, tree, ...(T ? { sent: 'gen' } : {}) }
      for (const schema of Object.keys(SCHEMAS)) for (const sent of ['gen', 'stream', 'resp']) yield { description: 'd', dev: 0, how, schema, sent, strict }
    }
    for (const how of HOW) for (const v of Object.keys(VALIDATE)) for (const mode of ['sync', 'async', 'late']) for (const input of Object.keys(INPUTS)) {
      yield { how, input, mode, schema: 'flat', v }
      yield { how, input, mode, run: 'gen', schema: 'flat', v }
      if (T || mode === 'sync') yield { how, input, mode, run: 'stream', schema: 'flat', v }
    }
    // schemas that are instances of classes
    for (const how of HOW) {
      for (const strict of [undefined, false]) for (const sent of [undefined, 'gen', 'stream', 'resp']) yield { cls: true, description: 'd', dev: 0, how, schema: 'nested', strict, ...(sent ? { sent } : {}) }
      for (const v of Object.keys(VALIDATE)) for (const mode of ['sync', 'async']) for (const run of [undefined, 'gen', 'stream']) yield { cls: true, how, input: 'deep', mode, schema: 'flat', v, ...(run ? { run } : {}) }
    }
    for (const a of HOW) for (const b of HOW) for (const strict of [true, false]) yield { dev: 0, how: a, second: b, schema: 'nested', strict }
  },
  async execute(env, s) {
    const given = schemaOf(s)
    const before = canon(given)
    let asked
    const seen = []
    const plainStd = { '~standard': {
      jsonSchema: { input: (o) => { asked = o; return given }, output: () => ({ type: 'string' }) },
      validate: (v) => { seen.push(canon(v)); const f = () => VALIDATE[s.v ?? 'ok'](v); return s.mode === 'async' ? (async () => f())() : s.mode === 'late' ? env.defer(`validate#${seen.length}`, f) : f() },
      vendor: 'check', version: 1,
    } }
    const std = s.cls ? ownSchema(plainStd) : plainStd
    deepFreeze(given)
    const calls = []
    const define = async (how, strict) => {
      const o = { execute: (input, opts) => { calls.push([canon(input), opts.toolCallId]); return 'ran' }, name: 'my_tool', parameters: how === 'rawTool' ? given : std, ...('description' in s && s.description !== undefined ? { description: s.description } : {}), ...(strict === undefined ? {} : { strict }) }
      return { o: Object.freeze(o), t: await env.lib[how](o) }
    }
    const defined = env.watch(define(s.how, s.strict), 'definition')
    await env.run()
    env.check(defined.settled && defined.ok, `defining the tool ${defined.settled ? `fails with ${canon(defined.error)}` : 'never settles'}`)
    const { o, t } = defined.value
    const judge = (t, strict) => {
      env.check(t.type === 'function', `the tool's type is ${canon(t.type)}`)
      env.expect(t.function.name, 'my_tool', 'name')
      env.expect(t.function.description, s.description, 'description')
      env.expect(t.function.strict, strict !== false, 'strict flag')
      env.expect(clone(t.function.parameters), clone(strict === false ? given : strict1(given)), 'parameters')
    }
    judge(t, s.strict)
    env.check(t.execute === o.execute || typeof t.execute === 'function', 'the implementation is lost')
    if (s.how !== 'rawTool') env.expect(asked, { target: 'draft-07' }, 'the JSON Schema version asked for')
    if (s.second) {
      const d = env.watch(define(s.second, !s.strict), 'second definition')
      await env.run()
      env.check(d.ok, `the second definition fails with ${canon(d.error)}`)
      judge(d.value.t, !s.strict)
      judge(t, s.strict)
    }
    if (s.sent) {
      const body = { gen: () => ({ json: genBody({ text: 'ok' }) }), resp: () => ({ chunks: ['data: [DONE]\n\n'] }), stream: () => ({ chunks: ['data: {"choices":[{"delta":{"content":"x"},"finish_reason":"stop","index":0}]}\n\ndata: [DONE]\n\n'] }) }[s.sent]
      env.server = () => ({ auto: true, ...body() })
      const c = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetch(i, init), model: 'm', tools: [t], ...(s.sent === 'resp' ? { input: 'x' } : { messages: [{ content: 'x', role: 'user' }] }) }
      const r = { gen: () => env.lib.generateText(c), resp: () => env.lib.responses(c), stream: () => env.lib.streamText(c) }[s.sent]()
      if (s.sent === 'gen') env.watch(r, 'call')
      else { for (const k of ['steps', 'messages', 'input', 'usage', 'totalUsage']) r[k]?.catch?.(() => {}); for (const k of ['textStream', 'fullStream', 'eventStream', 'reasoningTextStream']) env.collect(r[k], k) }
      await env.run()
      const w = env.requests[0].json.tools
      env.check(w?.length === 1, `${w?.length} tools are sent`)
      const f = s.sent === 'resp' ? w[0] : w[0].function
      env.check(w[0].type === 'function', `the tool is sent as ${canon(w[0].type)}`)
      env.expect({ description: f.description, name: f.name, parameters: f.parameters, strict: f.strict }, { description: s.description, name: 'my_tool', parameters: clone(s.strict === false ? given : strict1(given)), strict: s.strict !== false }, 'the tool sent')
      env.check(!('execute' in f) && !('validate' in f) && !('execute' in w[0]) && !('validate' in w[0]), `the tool is sent with more than its definition: ${canon(w[0])}`)
    }
    if (s.v) {
      const input = INPUTS[s.input]
      if (!s.run) await direct(input)
      else await through(input)
    }
    env.check(canon(given) === before, 'the given schema was changed')
    return canon([s.how, s.strict, s.v, calls.length])

    async function direct(input) {
      if (s.how === 'rawTool') { env.check(t.validate === undefined || canon((await t.validate(input)).value) === canon(input), 'a raw tool validates its input'); return }
      for (let k = 0; k < 2; k++) {
        const r = env.watch((async () => t.validate(input))(), 'validation')
        await env.run()
        env.check(r.settled, 'the validation never settles')
        if (s.v === 'throws') { env.check(!r.ok && r.error instanceof TypeError, `a validator's failure ${r.ok ? `yields ${canon(r.value)}` : `is reported as ${canon(r.error)}`}`); continue }
        env.check(r.ok, `the validation fails with ${canon(r.error)}`)
        const want = VALIDATE[s.v](input)
        if (want.issues) env.expect(r.value.issues, want.issues, 'the issues')
        else { env.check(!r.value.issues, `issues ${canon(r.value.issues)} for a valid input`); env.expect(r.value.value, want.value, 'the validated value') }
      }
      env.expect(seen, [canon(input), canon(input)], 'what the schema was asked about')
    }
    // through a run: the implementation sees the validated value, or nothing
    async function through(input) {
      let n = 0
      const args = JSON.stringify(input)
      env.server = () => {
        const call = n++ === 0
        if (s.run === 'gen') return { auto: true, json: genBody(call ? { calls: [{ args, id: 'c1', name: 'my_tool' }] } : { text: 'ok' }) }
        const d = call ? [{ choices: [{ delta: { role: 'assistant', tool_calls: [{ function: { arguments: args, name: 'my_tool' }, id: 'c1', index: 0, type: 'function' }] }, index: 0 }] }, { choices: [{ delta: {}, finish_reason: 'tool_calls', index: 0 }] }] : [{ choices: [{ delta: { content: 'ok', role: 'assistant' }, finish_reason: 'stop', index: 0 }] }]
        return { auto: true, chunks: [...d.map(x => `data: ${JSON.stringify(x)}\n\n`), 'data: [DONE]\n\n'] }
      }
      const c = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetch(i, init), messages: [{ content: 'x', role: 'user' }], model: 'm', stopWhen: ({ steps }) => steps.length >= 3, tools: [t] }
      const r = s.run === 'gen' ? env.lib.generateText(c) : env.lib.streamText(c)
      const steps = env.watch(s.run === 'gen' ? r.then(x => x.steps) : r.steps, 'steps')
      if (s.run === 'stream') { for (const k of ['messages', 'usage', 'totalUsage']) r[k].catch(() => {}); for (const k of ['textStream', 'fullStream', 'eventStream', 'reasoningTextStream']) env.collect(r[k], k) }
      await env.run()
      env.check(steps.settled && steps.ok, `the run ${steps.settled ? `fails with ${canon(steps.error)}` : 'never settles'}`)
      const want = s.how === 'rawTool' ? { value: input } : s.v === 'throws' ? { issues: 1 } : VALIDATE[s.v](input)
      env.expect(calls, want.issues ? [] : [[canon(want.value), 'c1']], 'the calls of the implementation')
      const res = steps.value[0].toolResults[0]
      env.check(want.issues ? res.isError === true : !res.isError && res.result === 'ran', `the tool result is ${canon(res)}`)
      if (s.how !== 'rawTool') env.expect(seen, [canon(input)], 'what the schema was asked about')
    }
  },
}
