import { outcome, sameTranscript, startCall } from '../lib/chat.mjs'
import { FINAL_TURNS, TOOL_TURNS, TOOLS } from '../lib/families.mjs'
import { arrayOf, deepFreeze, ownSchema, SCHEMAS, strictOf } from '../lib/jsonschema.mjs'
import { canon, clone, sequences } from '../lib/util.mjs'

// how the schema's own validator treats one value
const VALIDATORS = {
  asyncIssue: { async: true, issue: true }, asyncKeep: { async: true }, deferKeep: { defer: true }, deferMap: { defer: true, map: true }, deferIssue: { defer: true, issue: true },
  issue: { issue: true }, issueValue: { both: true, issue: true }, noIssues: { both: true }, keep: {}, map: { map: true }, mapNull: { to: null }, mapUndef: { to: undefined }, throwE: { throws: true }, asyncThrow: { async: true, throws: true }, mapFalsy: { to: 0 },
}
const ELEM = ['keep', 'map', 'deferMap', 'deferKeep', 'issue', 'asyncIssue', 'deferIssue', 'throwE', 'asyncThrow', 'mapUndef', 'issueValue']
const VALUES = ['{}', '{"n":1}', '[]', '[1,2]', 'null', 'true', 'false', '0', '-1.5e3', '""', '"text"', '{"elements":[{"n":1}]}', '{"n":1,"x":{"y":[null,"ü😀\\u2028"]}}', ' {"n":1}\n', '{"__proto__":{"a":1}}', '"[]"']
const BADTEXT = ['', '{', '{"n":1', 'null,', '```json\n{"n":1}\n```', 'undefined', '{"n":1}{"n":2}', "{'n':1}", ' ', '{"n":1,}', 'NaN', '[1,2']
const BADARRAY = ['{}', '[]', '[1]', 'null', 'true', '7', '"elements"', '{"elements":null}', '{"elements":{}}', '{"elements":"ab"}', '{"elements":5}', '{"elements":{"0":1,"length":1}}', '{"items":[1]}']
const NOTEXT = { missing: {}, nul: { text: null }, refusal: { refusal: 'no', text: null }, empty: { text: '' }, calls: { calls: [{ args: '{}', id: 'z', name: 'a' }], text: null } }

export default {
  id: 'C18',
  block: 8,
  dev: { quick: 2, thorough: 4 },
  bounds: {
    quick: '14 schemas (recursive ones and ones with definitions among them) x strict/name/description/mode options; 16 JSON values x 15 validator behaviours; all arrays of up to 2 elements over 11 per-element validator behaviours and up to 4 over 3 deferred ones (completion orders within 2 deviations), arrays of 17 and 40 elements with one special one; 12 non-JSON texts, 13 wrong array shapes, 5 textless answers; after 0-2 tool turns of 7 shapes',
    thorough: 'arrays of up to 3 elements over 11 validator behaviours and up to 5 over 3; 4 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const schema of Object.keys(SCHEMAS)) for (const strict of [undefined, true, false]) for (const output of [undefined, 'object', 'array']) for (const names of [{}, { schemaDescription: 'what it is', schemaName: 'thing' }, { schemaName: '' }]) yield { names, output, schema, strict, text: output === 'array' ? '{"elements":[{"n":1},{"n":2}]}' : '{"n":1}', vs: ['keep'] }
    for (const output of [undefined, 'object']) for (const text of VALUES) for (const v of Object.keys(VALIDATORS)) yield { output, text, vs: [v] }
    const ev = ['{"n":1}', '2', '"three"', 'null', '[[]]']
    const arr = n => `{"elements":[${ev.slice(0, n).join(',')}]}`
    for (const vs of sequences(ELEM, T ? 3 : 2)) yield { output: 'array', text: arr(vs.length), vs }
    for (const vs of sequences(['deferMap', 'deferIssue', 'map'], T ? 5 : 4, 3)) yield { output: 'array', text: arr(vs.length), vs }
    for (const text of ['{"elements":[1,1,1]}', '{"a":1,"elements":[3,2,1],"z":[9]}', '{"elements":[[{"elements":[5]}]]}', '{"elements":[1],"elements":[2,3]}']) yield { output: 'array', text, vs: ['map'] }
    // long arrays, one element of which is special
    for (const n of T ? [17, 40, 150] : [17, 40]) for (const kind of ['num', 'obj', 'str']) for (const [i, v] of [[0, 'issue'], [1, 'issue'], [15, 'issue'], [16, 'issue'], [n - 2, 'asyncIssue'], [n - 1, 'throwE'], [n - 1, 'mapUndef'], [n >> 1, 'map'], [n - 3, 'issue']]) {
      const one = k => kind === 'num' ? k : kind === 'str' ? `e${k}` : { n: k }
      yield { dev: 0, output: 'array', text: JSON.stringify({ elements: Array.from({ length: n }, (_, k) => one(k)) }), vs: Array.from({ length: n }, (_, k) => k === i ? v : 'map') }
    }
    for (const output of [undefined, 'array']) {
      for (const text of BADTEXT) yield { fails: true, output, text, vs: ['keep'] }
      for (const k of Object.keys(NOTEXT)) yield { fails: true, output, turn: k, vs: ['keep'] }
    }
    for (const text of BADARRAY) for (const v of ['keep', 'map']) yield { fails: true, output: 'array', text, vs: [v] }
    for (const output of [undefined, 'array']) for (const strict of [undefined, false]) for (const v of Object.keys(VALIDATORS)) yield { cls: true, output, schema: 'nested', strict, text: output ? arr(3) : '{"n":1}', vs: output ? ['map', v, 'map'] : [v] }
    // step, usage and message results are those of the text call
    for (const seq of sequences(Object.keys(TOOL_TURNS), 2)) for (const output of [undefined, 'array']) for (const f of [undefined, 'length', 'reasoning']) yield { dev: 1, f, output, seq, stop: { k: 'never' }, text: output ? '{"elements":[{"n":1},{"n":2}]}' : '{"n":1}', vs: ['map'] }
    for (const seq of sequences(Object.keys(TOOL_TURNS), 1, 1)) for (const stop of [undefined, { k: 'count', n: 1 }]) yield { dev: 1, fails: true, seq, stop, text: '{"n":1}', vs: ['keep'] }
    // an answer without text is none, whatever was said before
    for (const k of Object.keys(NOTEXT)) for (const before of ['{"n":1}', '{"elements":[]}']) for (const output of [undefined, 'array']) for (const n of [1, 2]) yield { dev: 0, fails: true, output, said: Array(n).fill(before), stop: { k: k === 'calls' ? 'count' : 'never', n: n + 1 }, turn: k, vs: ['keep'] }
    for (const status of [400, 500]) yield { fails: true, status, text: '{}', vs: ['keep'] }
  },
  async execute(env, s) {
    const json = deepFreeze(clone(SCHEMAS[s.schema ?? 'flat']))
    const before = canon(json)
    const validated = []
    const known = {} // outcome per value, for the validator's own verdict
    const rule = (v) => {
      const list = s.output === 'array' ? parsed().elements : undefined
      const i = Array.isArray(list) ? list.findIndex((x, k) => canon(x) === canon(v) && !known[k]) : 0
      if (s.vs.length > 1 && i >= 0) known[i] = true
      return VALIDATORS[s.vs[i] ?? s.vs[0]]
    }
    const parsed = () => { try { return JSON.parse(s.text) ?? {} } catch { return {} } }
    const verdict = (r, v) => { if (r.throws) throw new TypeError(`validator refuses ${canon(v)}`); return r.issue ? { ...(r.both ? { value: v } : {}), issues: [{ message: 'bad value', path: ['n'] }] } : { ...(r.both ? { issues: undefined } : {}), value: 'to' in r ? r.to : r.map ? { mapped: clone(v) } : v } }
    const bare = { '~standard': { jsonSchema: { input: () => json, output: () => json }, validate: (v) => {
      validated.push(clone(v))
      const r = rule(v)
      if (r.defer) return env.defer(`validate:${validated.length}`, () => verdict(r, v))
      return r.async ? (async () => verdict(r, v))() : verdict(r, v)
    }, vendor: 'check', version: 1 } }
    // an instance of a class, or a plain object
    const schema = s.cls ? ownSchema(bare) : bare
    const std = schema['~standard']
    const last = s.turn ? { usage: [1, 2, 3], ...NOTEXT[s.turn] } : { ...(s.f ? FINAL_TURNS[s.f] : {}), text: s.text, usage: [1, 2, 3] }
    const turns = [...(s.said ?? []).map((text, i) => ({ calls: [{ args: '{}', id: `s${i}`, name: 'a' }], text, usage: [1, 1, 2] })), ...(s.seq ?? []).map((k, i) => TOOL_TURNS[k](i)), ...(s.status ? [{ answer: { auto: true, status: s.status, text: 'x' } }] : [last])]
    const base = { messages: [{ content: 'hi', role: 'user' }], stop: s.stop, tools: TOOLS, turns, options: { temperature: 0 } }
    const h = startCall(env, base, 'gen', { lib: { generateText: o => env.lib.generateObject(o) }, patch: (o) => {
      Object.assign(o, s.names, { schema })
      if (s.strict !== undefined) o.strict = s.strict
      if (s.output !== undefined) o.output = s.output
    } })
    await env.run()
    env.check(h.promise.settled, 'the call never settles')
    env.check(canon(json) === before && schema['~standard'] === std, 'the schema was modified')
    // the request
    const strict = s.strict ?? true
    let want = strict ? strictOf(SCHEMAS[s.schema ?? 'flat']) : SCHEMAS[s.schema ?? 'flat']
    env.check(h.obs.requests.length >= 1, 'no request')
    for (const r of h.obs.requests) {
      const f = clone(r.json.response_format)
      if (s.output === 'array' && f?.json_schema?.schema) { delete f.json_schema.schema.additionalProperties }
      const expected = { json_schema: { description: s.names?.schemaDescription, name: s.names?.schemaName ?? 'json_schema', schema: s.output === 'array' ? arrayOf(want, f?.json_schema?.schema, m => env.fail(m)) : want, strict }, type: 'json_schema' }
      env.expect(f, expected, 'response format of the request')
      for (const k of ['schema', 'schemaName', 'schemaDescription', 'schema_name', 'schema_description', 'strict', 'output']) env.check(!(k in r.json), `the request carries ${k}`)
    }
    // the underlying text call, in the same world
    const t = startCall(env, base, 'gen', { patch: (o) => { o.responseFormat = { json_schema: h.obs.requests[0].json.response_format.json_schema, type: 'json_schema' } }, tag: '' })
    await env.run()
    const plain = outcome(env, t)
    env.expect(h.obs.requests.map(r => r.json), t.obs.requests.map(r => r.json), 'requests (against those of the text call)')
    const p = h.promise
    if (!plain.ok) { env.check(!p.ok && p.error?.name === plain.error?.name, `the text call fails with ${canon(plain.error)}, this one gives ${canon(p.ok ? p.value : p.error)}`); return canon(['fails', plain.error]) }
    const doc = (() => { try { return { v: JSON.parse(s.text) } } catch { return undefined } })()
    let expected
    if (!s.fails) {
      const elems = s.output === 'array' ? doc.v.elements : [doc.v]
      const specs = elems.map((_, i) => VALIDATORS[s.vs[i] ?? s.vs[0]])
      if (!specs.some(r => r.issue || r.throws)) { const vals = elems.map((v, i) => verdict(specs[i], v).value); expected = { object: s.output === 'array' ? vals : vals[0] } }
      else expected = undefined
    }
    if (expected === undefined) {
      env.check(!p.ok, `should be refused, resolves with ${canon(p.ok ? p.value.object : null)}`)
      if (s.turn || s.text === '') env.check(p.error instanceof Error && p.error.code === 'invalid_response', `a textless answer should be an invalid response, is ${canon(p.error)}`)
      return canon(['refused', p.error?.name])
    }
    env.check(p.ok, `fails with ${canon(p.error)}`)
    const { object, ...rest } = p.value
    env.expect(object, expected.object, 'object')
    env.check(Array.isArray(object) === Array.isArray(expected.object), 'array-ness of the object')
    const elems = s.output === 'array' ? doc.v.elements : [doc.v]
    for (const v of elems) env.check(validated.some(x => canon(x) === canon(v)), `${canon(v)} was never given to the validator`)
    const q = t.promise.value
    env.check(sameTranscript(rest.messages, q.messages), `messages should be ${canon(q.messages)}, are ${canon(rest.messages)}`)
    for (const k of ['finishReason', 'reasoningText', 'steps', 'text', 'toolCalls', 'toolResults', 'totalUsage', 'usage']) env.expect(rest[k], q[k], `${k} (against the text call)`)
    env.expect(h.obs.execs.length, t.obs.execs.length, 'tool executions')
    return canon(object)
  },
}
