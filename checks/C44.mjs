import { chunkOf, startCall } from '../lib/chat.mjs'
import { FINAL_TURNS, MESSAGES, TOOL_TURNS, TOOLS } from '../lib/families.mjs'
import { arrayOf, deepFreeze, SCHEMAS, strictOf } from '../lib/jsonschema.mjs'
import { canon, clone, sequences } from '../lib/util.mjs'

const TEXTS = {
  object: ['{"n":1}', ' {"n":1,"x":{"y":[null,"ü😀\\u2028"]}}\n', '{}', '{"elements":[1,{"n":2},"three"]}'],
  array: ['{"elements":[1,{"n":2},"three"]}', '{"elements":[]}', '{"a":0,"elements":[[1],[]],"b":[2]}', '{"elements":[null,false,"",0,{}]}'],
}
const FAILS = { status: { answer: { auto: true, status: 500, text: 'down' } }, nobody: { answer: { auto: true, nullBody: true } }, malformed: { chunks: [chunkOf({ content: '{"elements":[1,' }), '{oops', chunkOf({ content: '2]}' })] }, remote: { chunks: [chunkOf({ content: '{"n":1' }), { error: { message: 'gone' } }] }, noName: { calls: [{ args: '{}', id: 'z' }], text: '{"n":1}', usage: [1, 2, 3] }, reject: { answer: { reject: 'offline' } } }
const TEXTLESS = { empty: { text: '', usage: [1, 2, 3] }, nothing: { chunks: [] }, thoughts: { reasoning: 'only this', usage: [1, 2, 3] }, blank: { text: ' \n', usage: [1, 2, 3] } }
const THROW = { onEvent: o => { o.onEvent = () => { throw new Error('no event') } }, onFinish: o => { o.onFinish = () => { throw new Error('no finish') } }, onStepFinish: o => { o.onStepFinish = () => { throw new Error('no step') } }, prepareStep: o => { o.prepareStep = () => { throw new Error('no step 0') } }, stopWhen: o => { o.stopWhen = () => { throw new Error('no stop') } } }
/** tool definitions beyond the usual ones */
const DEFS = { bare: f => { delete f.description; delete f.strict }, described: f => { f.description = '' }, loose: f => { f.strict = false }, lax: f => { f.parameters = {} }, strict: f => { f.strict = true }, extra: f => { f.note = { a: 1 } } }
const OPTIONS = [{}, { frequencyPenalty: 0, maxTokens: 5, seed: 0, stop: ['a'], streamOptions: { includeUsage: true }, temperature: 0.5, toolChoice: 'auto', user: 'u' }, { streamOptions: { includeUsage: false } }]
/** what the tools of one step see they see in the order in which they are done */
const list = (xs, k) => ['pre', 'post', 'execs'].includes(k) ? xs.map(canon).sort() : xs
const err = r => r.failed || r.ok === false ? [r.error?.name, r.error?.message, r.error?.code] : undefined

export default {
  id: 'C44',
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'streamObject beside streamText and generateObject with the same server: 14 schemas x strictness x mode x names; histories of up to 2 tool turns of 7 shapes x 8 texts in pieces of 4 sizes; 3 option sets, 20 hook pairs, 5 throwing callbacks, 6 kinds of failing answers first, second and third, 4 textless answers; completion orders within 1 deviation',
    thorough: 'up to 3 tool turns; 2 deviations',
  },
  * scenarios(tier) {
    const T = Object.keys(TOOL_TURNS)
    const MODES = [undefined, 'object', 'array']
    const texts = output => TEXTS[output ?? 'object']
    const mk = (output, seq, last, extra) => ({ base: { messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), ...(last ? [last] : [])] }, output, ...extra })
    const fin = (output, t = 0, split = 3) => ({ ...FINAL_TURNS.reasoning, split, text: texts(output)[t] })
    for (const schema of Object.keys(SCHEMAS)) for (const strict of [undefined, true, false]) for (const output of MODES) for (const names of [{}, { schemaDescription: 'what it is', schemaName: 'thing' }, { schemaName: '' }, { schemaDescription: '' }]) yield { ...mk(output, [], fin(output)), names, schema, strict }
    for (const output of MODES) {
      for (const seq of sequences(T, tier === 'quick' ? 2 : 3)) for (const t of texts(output).keys()) for (const split of seq.length > 1 ? [4] : [1, 2, 5, 99]) { const s = mk(output, seq, fin(output, t, split), { dev: seq.length > 1 ? 0 : undefined }); yield s.base.turns.length > 1 ? { ...s, base: { ...s.base, turns: s.base.turns.map(x => ({ ...x, text: x.calls ? undefined : x.text })) } } : s }
      for (const options of OPTIONS) for (const k of ['one', 'two']) for (const m of Object.keys(MESSAGES)) { const s = mk(output, [k], fin(output)); yield { ...s, base: { ...s.base, messages: MESSAGES[m], options } } }
      for (const pre of [undefined, 'args', 'strresult', 'throw', 'badId']) for (const post of [undefined, 'replace', 'throw', 'badId']) { const s = mk(output, ['sameTool'], fin(output), { dev: [pre, post].includes('badId') ? 0 : undefined }); yield { ...s, base: { ...s.base, post, pre, prep: { model: 'alt' } } } }
      // what is asked of the tools is asked in either way
      for (const shape of Object.keys(DEFS)) for (const k of ['one', 'two']) for (const stop of [undefined, { k: 'never' }]) { const s = mk(output, [k], fin(output)); yield { ...s, base: { ...s.base, stop }, defs: shape, ...(stop ? {} : { fails: true, textless: !s.base.turns[0].text }) } }
      for (const tools of [[], undefined]) for (const seq of [[], ['one']]) { const s = mk(output, seq, fin(output)); yield { ...s, base: { ...s.base, tools } } }
      for (const patch of Object.keys(THROW)) for (const seq of [[], ['one']]) yield mk(output, seq, fin(output), { patch })
      for (const f of Object.keys(FAILS)) for (const seq of sequences(['one', 'errors'], 2)) yield mk(output, seq, FAILS[f], { fails: true })
      for (const f of Object.keys(TEXTLESS)) for (const seq of [[], ['one']]) yield mk(output, seq, TEXTLESS[f], { textless: f !== 'blank', fails: true })
      for (const stop of [undefined, { k: 'always' }, { k: 'count', n: 2 }]) for (const k of ['one', 'two', 'sameTool']) { const s = mk(output, [k, k], fin(output)); yield { ...s, base: { ...s.base, stop, turns: s.base.turns.map(t => ({ ...t, text: undefined })) }, fails: true, textless: true } }
    }
  },
  async execute(env, s) {
    const json = deepFreeze(clone(SCHEMAS[s.schema ?? 'flat']))
    const schema = { '~standard': { jsonSchema: { input: () => json, output: () => json }, validate: v => ({ value: v }), vendor: 'check', version: 1 } }
    const shape = (o) => { if (s.defs) for (const t of o.tools) DEFS[s.defs](t.function) }
    const names = deepFreeze({ ...s.names })
    const own = (o) => { THROW[s.patch]?.(o); shape(o); Object.assign(o, names, { schema }); if (s.strict !== undefined) o.strict = s.strict; if (s.output !== undefined) o.output = s.output }
    const items = {}
    const h = startCall(env, s.base, 'stream', { lib: { later: o => env.lib.streamObject(o) }, onResult: (r) => {
      for (const k of ['elementStream', 'partialObjectStream']) {
        env.check((r[k] != null) === ((k === 'elementStream') === (s.output === 'array')), `in ${s.output ?? 'object'} mode there is ${r[k] == null ? 'no' : 'a'} ${k}`)
        if (r[k]) items.rec = env.collect(r[k], k, x => structuredClone(x))
      }
    }, patch: own, tag: '' })
    await env.run()
    env.check(h.call.settled && h.call.ok, `the call ${h.call.settled ? `fails: ${canon(h.call.error)}` : 'never gives its result'}`)
    // ---- the request
    const inner = s.strict ?? true ? strictOf(SCHEMAS[s.schema ?? 'flat']) : SCHEMAS[s.schema ?? 'flat']
    const format = { json_schema: { description: names.schemaDescription, name: names.schemaName ?? 'json_schema', schema: s.output === 'array' ? arrayOf(inner, h.obs.requests[0]?.json.response_format?.json_schema?.schema, m => env.fail(m)) : inner, strict: s.strict ?? true }, type: 'json_schema' }
    for (const r of h.obs.requests) {
      const f = clone(r.json.response_format)
      if (s.output === 'array' && f?.json_schema?.schema) delete f.json_schema.schema.additionalProperties
      env.expect(f, format, 'response format of the request')
      for (const k of ['schema', 'schemaName', 'schemaDescription', 'schema_name', 'schema_description', 'strict', 'output']) env.check(!(k in r.json), `the request carries ${k}`)
    }
    // ---- everything else is as in a text run with the same response format
    const rf = h.obs.requests[0]?.json.response_format
    const t = startCall(env, s.base, 'stream', { patch: (o) => { THROW[s.patch]?.(o); shape(o); if (rf) o.responseFormat = { json_schema: rf.json_schema, type: rf.type } }, tag: '' })
    await env.run()
    const same = (a, b, what) => env.check(canon(a) === canon(b), `${what} should be ${canon(b)} as of streamText, is ${canon(a)}`)
    same(h.obs.requests.map(r => [r.url, r.method, r.headers, r.json]), t.obs.requests.map(r => [r.url, r.method, r.headers, r.json]), 'the list of requests')
    for (const k of ['events', 'stepsSeen', 'finish', 'preps', 'pre', 'post', 'stops']) same(list(h.obs[k].map(x => ({ ...x, at: 0, signal: 0 })), k), list(t.obs[k].map(x => ({ ...x, at: 0, signal: 0 })), k), `what ${k} saw`)
    same(list(h.obs.execs.map(x => [x.name, x.id, x.input, x.messages]), 'execs'), list(t.obs.execs.map(x => [x.name, x.id, x.input, x.messages]), 'execs'), 'the list of executed tools')
    for (const k of ['transcript', 'steps', 'usage', 'totalUsage']) { env.check(h[k].settled, `the ${k} promise never settles`); same([h[k].ok, h[k].ok ? h[k].value : err(h[k])], [t[k].ok, t[k].ok ? t[k].value : err(t[k])], `the ${k} promise`) }
    for (const k of ['reasoning', 'full', 'eventStream', 'text']) {
      env.check(h[k].done || h[k].failed, `the ${k} stream never ends`)
      if (k === 'text' && s.textless && t.text.done) env.check(h.text.failed && h.text.error?.code === 'invalid_response', `the text stream of a textless run should fail as an invalid response, gives ${canon(h.text.error)}`)
      else same([h[k].items, err(h[k])], [t[k].items, err(t[k])], `the ${k} stream`)
    }
    env.check(items.rec.done || items.rec.failed, 'the object stream never ends')
    if (t.text.failed) same(err(items.rec), err(t.text), 'the failure of the object stream')
    // ---- and the object is that of generateObject
    if (!s.fails && t.text.done) {
      const g = startCall(env, { ...s.base, options: { ...s.base.options, streamOptions: undefined } }, 'gen', { lib: { generateText: o => env.lib.generateObject(o) }, patch: (o) => { THROW[s.patch]?.(o); own(o) }, tag: 'g' })
      await env.run()
      if (g.promise.ok) {
        const got = s.output === 'array' ? items.rec.items : items.rec.items.at(-1) ?? {}
        env.check(items.rec.done, `the object stream fails with ${canon(items.rec.error)}, generateObject gives ${canon(g.promise.value.object)}`)
        env.expect(got, g.promise.value.object, 'the object streamed (against that of generateObject)')
        same(h.obs.requests.map(r => r.json.response_format), g.obs.requests.map(r => r.json.response_format), 'response formats')
      }
      else env.check(s.patch, `generateObject fails with ${canon(g.promise.error)}`)
    }
    return canon([h.text.items, items.rec.items, err(items.rec)])
  },
}
