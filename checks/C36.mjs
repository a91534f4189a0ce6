import { createRequire } from 'node:module'
import path from 'node:path'
import { REPO } from '../lib/build.mjs'
import { canon, product, sequences } from '../lib/util.mjs'

const require = createRequire(path.join(REPO, 'packages-top/xsschema/package.json'))
const load = {}
const get = p => load[p] ??= require(p)
// where the library finds its optional dependencies; `missing` ones fail to load
let missing = []
let asked = []
globalThis.__vendor = (p) => { asked.push(p); if (missing.some(m => p === m || p.startsWith(`${m}/`))) throw new Error(`Cannot find module '${p}'`); return get(p) }

// one schema language, seven vendors
const zodLike = (z, opt, nul) => ({
  arr: () => z.array(z.string()), bool: () => z.boolean(), enum: () => z.enum(['s', 'x']), lit: () => z.literal('x'), nul: () => nul(z.string()), num: () => z.number(), obj: () => z.object({ k: z.string() }), opt: () => opt(z.string()), optObj: () => opt(z.object({ k: opt(z.number()) })), str: () => z.string(), union: () => z.union([z.string(), z.number()]),
})
const VENDOR = {
  arktype: {
    fields: { arr: 'string[]', bool: 'boolean', enum: '\'s\'|\'x\'', lit: '\'x\'', nul: 'string|null', num: 'number', obj: { k: 'string' }, opt: ['?', 'string'], optObj: ['?', { 'k?': 'number' }], str: 'string', union: 'string|number' },
    object: f => get('arktype').type(Object.fromEntries(Object.entries(f).map(([k, v]) => Array.isArray(v) ? [`${k}?`, v[1]] : [k, v]))),
    needs: [],
  },
  effect: {
    get fields() { const S = get('effect').Schema; return { arr: () => S.Array(S.String), bool: () => S.Boolean, enum: () => S.Literal('s', 'x'), lit: () => S.Literal('x'), nul: () => S.NullOr(S.String), num: () => S.JsonNumber, obj: () => S.Struct({ k: S.String }), opt: () => S.optionalWith(S.String, { exact: true }), optObj: () => S.optionalWith(S.Struct({ k: S.optionalWith(S.JsonNumber, { exact: true }) }), { exact: true }), str: () => S.String, union: () => S.Union(S.String, S.JsonNumber) } },
    object: f => get('effect').Schema.standardSchemaV1(get('effect').Schema.Struct(f)),
    needs: ['effect'],
  },
  sury: {
    get fields() { const S = get('sury'); return { arr: () => S.array(S.string), bool: () => S.boolean, enum: () => S.union(['s', 'x']), lit: () => S.schema('x'), nul: () => S.nullable(S.string), num: () => S.number, obj: () => S.schema({ k: S.string }), opt: () => S.optional(S.string), optObj: () => S.optional(S.schema({ k: S.optional(S.number) })), str: () => S.string, union: () => S.union([S.string, S.number]) } },
    object: f => get('sury').schema(f),
    needs: ['sury'],
  },
  valibot: {
    get fields() { const v = get('valibot'); return { arr: () => v.array(v.string()), bool: () => v.boolean(), enum: () => v.picklist(['s', 'x']), lit: () => v.literal('x'), nul: () => v.nullable(v.string()), num: () => v.number(), obj: () => v.object({ k: v.string() }), opt: () => v.optional(v.string()), optObj: () => v.optional(v.object({ k: v.optional(v.number()) })), str: () => v.string(), union: () => v.union([v.string(), v.number()]) } },
    object: f => get('valibot').object(f),
    needs: ['@valibot/to-json-schema'],
  },
  zod3: {
    get fields() { return zodLike(get('zod/v3').z, x => x.optional(), x => x.nullable()) },
    object: f => get('zod/v3').z.object(f),
    needs: ['zod-to-json-schema'],
  },
  zod4: {
    get fields() { const { z } = get('zod/v4'); return { ...zodLike(z, x => x.optional(), x => x.nullable()), def: () => z.string().default('d'), trans: () => z.string().transform(t => t.length) } },
    object: f => get('zod/v4').z.object(f),
    needs: [],
  },
  zodMini: {
    get fields() { const z = get('zod/v4-mini'); return { ...zodLike(z, z.optional, z.nullable), def: () => z._default(z.string(), 'd'), trans: () => z.pipe(z.string(), z.transform(t => t.length)) } },
    object: f => get('zod/v4-mini').object(f),
    needs: ['zod'],
  },
  // an early zod 4 whose schemas do not offer their JSON Schema themselves
  zod4Early: {
    get fields() { const { z } = get('zod/v4'); return { ...zodLike(z, x => x.optional(), x => x.nullable()), def: () => z.string().default('d'), trans: () => z.string().transform(t => t.length) } },
    object: (f) => {
      const o = get('zod/v4').z.object(f)
      const std = { validate: v => o['~standard'].validate(v), vendor: 'zod', version: 1 }
      return new Proxy(o, { get: (t, k) => k === '~standard' ? std : Reflect.get(t, k, t) })
    },
    needs: ['zod'],
  },
}
const MISSING = Symbol('missing')
/** further field types: tuples, records, bounds, recursion, one schema used twice */
const deepZod = (z, mini) => ({
  int: () => mini ? z.number().check(z.int()) : z.number().int(),
  len: () => mini ? z.string().check(z.minLength(1), z.maxLength(2)) : z.string().min(1).max(2),
  list: () => mini ? z.array(z.string()).check(z.minLength(1), z.maxLength(2)) : z.array(z.string()).min(1).max(2),
  range: () => mini ? z.number().check(z.gte(0), z.lt(1)) : z.number().gte(0).lt(1),
  rec: () => { const N = z.lazy(() => z.object({ k: z.string(), next: mini ? z.optional(N) : N.optional() })); return N },
  record: () => z.record(z.string(), z.number()),
  tuple: () => z.tuple([z.string(), z.number()]),
  twice: () => { const o = z.object({ k: z.string() }); return z.object({ a: o, b: mini ? z.optional(o) : o.optional() }) },
})
const DEEP = {
  arktype: () => ({ int: 'number.integer', len: '1<=string<=2', list: '1<=string[]<=2', range: '0<=number<1', record: 'Record<string, number>', twice: { a: { k: 'string' }, 'b?': { k: 'string' } } }),
  effect: () => {
    const S = get('effect').Schema
    const o = S.Struct({ k: S.String })
    const N = S.Struct({ k: S.String, next: S.optionalWith(S.suspend(() => N), { exact: true }) }).annotations({ identifier: 'Node' })
    return { int: () => S.Int, len: () => S.String.pipe(S.minLength(1), S.maxLength(2)), list: () => S.Array(S.String).pipe(S.minItems(1), S.maxItems(2)), range: () => S.JsonNumber.pipe(S.greaterThanOrEqualTo(0), S.lessThan(1)), rec: () => N, record: () => S.Record({ key: S.String, value: S.JsonNumber }), tuple: () => S.Tuple(S.String, S.JsonNumber), twice: () => S.Struct({ a: o, b: S.optionalWith(o, { exact: true }) }) }
  },
  sury: () => { const S = get('sury'); const o = S.schema({ k: S.string }); return { int: () => S.int32, len: () => S.max(S.min(S.string, 1), 2), list: () => S.max(S.min(S.array(S.string), 1), 2), record: () => S.record(S.number), tuple: () => S.schema([S.string, S.number]), twice: () => S.schema({ a: o, b: S.optional(o) }) } },
  valibot: () => {
    const v = get('valibot')
    const o = v.object({ k: v.string() })
    const N = v.object({ k: v.string(), next: v.optional(v.lazy(() => N)) })
    return { int: () => v.pipe(v.number(), v.integer()), len: () => v.pipe(v.string(), v.minLength(1), v.maxLength(2)), list: () => v.pipe(v.array(v.string()), v.minLength(1), v.maxLength(2)), range: () => v.pipe(v.number(), v.minValue(0), v.maxValue(1)), rec: () => N, record: () => v.record(v.string(), v.number()), tuple: () => v.strictTuple([v.string(), v.number()]), twice: () => v.object({ a: o, b: v.optional(o) }) }
  },
  zod3: () => deepZod(get('zod/v3').z),
  zod4: () => deepZod(get('zod/v4').z),
  zod4Early: () => deepZod(get('zod/v4').z),
  zodMini: () => deepZod(get('zod/v4-mini'), true),
}
const DEEP_VALUES = [MISSING, null, 's', 'sss', '', 0, 1, 0.5, -3, 7, [], ['s'], ['s', 1], ['s', 's'], ['s', 's', 's'], ['s', 1, true], [1, 's'], {}, { a: 1 }, { a: 's' }, { k: 's' }, { k: 1 }, { k: 's', next: { k: 'x' } }, { k: 's', next: { k: 'x', next: { k: 1 } } }, { k: 's', next: {} }, { a: { k: 's' } }, { a: { k: 's' }, b: { k: 'x' } }, { a: { k: 's' }, b: { k: 1 } }, { b: { k: 's' } }]
const TYPES = ['arr', 'bool', 'enum', 'lit', 'nul', 'num', 'obj', 'opt', 'optObj', 'str', 'union']
const VALUES = ['s', 'x', '', 1, -0.5, true, false, null, MISSING, [], ['s'], ['s', 1], [null], {}, { k: 's' }, { k: 1 }, { k: null }]
const FEW = ['x', 1, null, MISSING, ['s'], { k: 's' }]
const CYCLE = { name: 'c' }; CYCLE.self = CYCLE
/** inputs of validate(): plain ones, and ones that cannot be copied */
const GIVEN = { cycle: CYCLE, date: new Date(0), fn: () => 1, frozen: Object.freeze({ a: Object.freeze([1]) }), instance: new (class Point { #secret = 1; get x() { return this.#secret } })(), map: new Map([[{}, 1]]), nothing: undefined, nul: null, object: { a: { b: 1 } }, symbol: Symbol('s'), text: 'given', nan: NaN }
/** a Standard Schema is whatever has the properties, however it came by them */
const FORMS = {
  callable: std => Object.assign(() => {}, { '~standard': std }),
  class: (std) => { class Std { get jsonSchema() { return std.jsonSchema } get validate() { return std.validate } get vendor() { return std.vendor } get version() { return std.version } } class Bare { get validate() { return std.validate } get vendor() { return std.vendor } get version() { return std.version } } class Schema { get ['~standard']() { return std.jsonSchema ? new Std() : new Bare() } } return new Schema() },
  // one that needs to be what its methods are called on
  bound: (std) => { class Std { #std = std; vendor = std.vendor; version = std.version; get validate() { void this.#std; return Std.#validate } static #validate(v) { return this.#std.validate(v) } } class Own extends Std { #own = { input(o) { if (this !== own) throw new TypeError('not called on the converter'); return std.jsonSchema.input(o) }, output: () => std.jsonSchema.output() }; jsonSchema = this.#own } const x = std.jsonSchema ? new Own() : new Std(); const own = x.jsonSchema; return { '~standard': x } },
  create: std => Object.create({ '~standard': Object.create(std) }),
  frozen: std => Object.freeze({ '~standard': Object.freeze(std) }),
  getter: std => ({ get '~standard'() { return { ...std } } }),
  literal: std => ({ '~standard': std }),
}
const ODD = [null, 1, 'text', true]
const schemaFor = (vendor, types) => { const F = types.some(t => t in (DEEP[vendor]?.() ?? {})) ? { ...VENDOR[vendor].fields, ...DEEP[vendor]() } : VENDOR[vendor].fields; return VENDOR[vendor].object(Object.fromEntries(types.map((t, i) => [`f${i}`, typeof F[t] === 'function' && vendor !== 'arktype' ? F[t]() : F[t]]))) }

/** which of these JSON Schema keywords mean what; anything else is unknown and reported */
const ANNOTATIONS = ['$schema', '$defs', 'definitions', 'description', 'title', 'default', '$id', 'examples']
const accepts = (s, v, root = s) => {
  if (s === true) return true
  if (s === false) return false
  const type = v === null ? 'null' : Array.isArray(v) ? 'array' : typeof v
  for (const [k, x] of Object.entries(s)) {
    if (x === undefined || ANNOTATIONS.includes(k)) continue
    let ok = true
    switch (k) {
      case '$ref': ok = accepts(x.slice(2).split('/').reduce((o, p) => o[p], root), v, root); break
      case 'additionalProperties': if (type === 'object') ok = Object.keys(v).filter(p => !(p in (s.properties ?? {}))).every(p => accepts(x, v[p], root)); break
      case 'allOf': ok = x.every(y => accepts(y, v, root)); break
      case 'anyOf': ok = x.some(y => accepts(y, v, root)); break
      case 'const': ok = canon(v) === canon(x); break
      case 'enum': ok = x.some(y => canon(y) === canon(v)); break
      case 'additionalItems': if (type === 'array' && Array.isArray(s.items)) ok = v.slice(s.items.length).every(y => accepts(x, y, root)); break
      case 'exclusiveMaximum': if (type === 'number') ok = v < x; break
      case 'exclusiveMinimum': if (type === 'number') ok = v > x; break
      case 'maxItems': if (type === 'array') ok = v.length <= x; break
      case 'maxLength': if (type === 'string') ok = [...v].length <= x; break
      case 'maximum': if (type === 'number') ok = v <= x; break
      case 'minItems': if (type === 'array') ok = v.length >= x; break
      case 'minLength': if (type === 'string') ok = [...v].length >= x; break
      case 'minimum': if (type === 'number') ok = v >= x; break
      case 'propertyNames': if (type === 'object') ok = Object.keys(v).every(p => accepts(x, p, root)); break
      case 'items': if (type === 'array') ok = v.every((y, i) => accepts(Array.isArray(x) ? x[i] ?? true : x, y, root)); break
      case 'not': ok = !accepts(x, v, root); break
      case 'nullable': break
      case 'oneOf': ok = x.filter(y => accepts(y, v, root)).length === 1; break
      case 'properties': if (type === 'object') ok = Object.entries(x).every(([p, y]) => !(p in v) || accepts(y, v[p], root)); break
      case 'required': if (type === 'object') ok = x.every(p => p in v); break
      case 'type': ok = [x].flat().some(t => t === type || (t === 'integer' && type === 'number' && Number.isInteger(v))); break
      default: throw new Error(`unknown JSON Schema keyword ${k}`)
    }
    if (!ok) return false
  }
  return true
}

export default {
  id: 'C36',
  bundle: 'schemas',
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: '8 kinds of schema objects (ArkType, Effect, Sury, Valibot, Zod 3, Zod 4, early Zod 4, Zod Mini): all object schemas of up to 2 fields over 11 field types (2 more where the vendor has them) against all inputs over 17 values per field (6 for two fields) and 6 non-objects, tuples, records, bounds, recursion and a schema used twice where the vendor has them against 29 values, converted twice, and as tools with their validators; each missing dependency of each vendor; 6 unsupported vendors and 6 that offer their own schema, in 7 kinds of objects; validate() over 10 outcomes x 12 inputs (also ones that cannot be copied), synchronous and asynchronous',
    thorough: 'schemas of up to 3 fields, all 17 values for two fields',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const vendor of Object.keys(VENDOR)) {
      const extra = { zod4: ['def', 'trans'] }[vendor] ?? []
      if (vendor === 'zodMini') for (const t of ['def', 'trans']) yield { key: `${vendor}-${t === 'def' ? 'default' : 'transform'}`, types: [t], vendor }
      for (const types of sequences([...TYPES, ...extra], 2, 1)) yield { few: types.length === 2 && !T, types, vendor }
      for (const t of Object.keys(DEEP[vendor]())) if (vendor !== 'valibot' || t !== 'rec') for (const types of [[t], ['opt', t], [t, t]]) if (types.length === 1 || types[0] !== t || T) yield { deep: true, types, vendor }
      if (T) for (const types of sequences(TYPES, 3, 3)) yield { few: true, types, vendor }
      for (const m of ['zod', 'zod-to-json-schema', '@valibot/to-json-schema', 'effect', 'sury', 'arktype', 'valibot']) yield { missing: m, vendor }
    }
    for (const name of ['check', '', 'Zod', 'yup', 'zod4', 'constructor']) for (const form of Object.keys(FORMS)) { yield { form, unsupported: name }; yield { form, own: name } }
    for (const v of ['ok', 'undef', 'nul', 'coerce', 'issues', 'issue', 'path', 'throws', 'emptyValue']) for (const mode of ['sync', 'async']) for (const given of Object.keys(GIVEN)) yield { given, mode, v }
    // what a validator is given, and what it returns, keeps its identity
    for (const mode of ['sync', 'async', 'thenable']) for (const given of Object.keys(GIVEN)) yield { given, mode, v: 'same' }
    for (const form of Object.keys(FORMS)) for (const v of ['ok', 'issues', 'throws', 'same']) for (const mode of ['sync', 'async']) yield { form, given: 'object', mode, v }
  },
  async execute(env, s) {
    missing = s.missing ? [s.missing] : []; asked = []
    const L = env.lib
    const done = async (p, what) => { const w = env.watch(p, what); for (let i = 0; i < 4 && !w.settled; i++) await env.settle(); env.check(w.settled, `${what} never settles`); return w }
    if (s.types) {
      const schema = schemaFor(s.vendor, s.types)
      const c = await done(L.toJsonSchema(schema), 'the conversion')
      if (!c.ok) env.fail(`the conversion of ${s.types} fails with ${c.error}`, undefined, s.key)
      const json = JSON.parse(JSON.stringify(c.value))
      const again = await done(L.toJsonSchema(schema), 'the conversion')
      env.expect(again.value, c.value, 'a second conversion')
      env.check(json.type === 'object', `an object schema is converted to ${canon(json)}`)
      // to some of them an array is an object, too; some do not say how long a tuple is
      const values = (s.deep ? DEEP_VALUES : s.few ? FEW : VALUES).filter(v => !Array.isArray(v) || (!(s.types.includes('optObj') || s.types.includes('record')) && (!s.types.includes('tuple') || v.length === 2)))
      const inputs = [...ODD, ...[...product(s.types.map(() => values))].map(vs => Object.fromEntries(vs.map((v, i) => [`f${i}`, v]).filter(([, v]) => v !== MISSING)))]
      const t = await done(L.tool({ description: 'd', execute: () => 'x', name: 'n', parameters: schema, strict: false }), 'the tool')
      env.check(t.ok, `a tool with this schema cannot be defined: ${t.error}`)
      env.expect(t.value.function.parameters, c.value, 'the parameters of a tool')
      if ('jsonSchema' in schema['~standard']) env.expect(L.defineTool({ execute: () => 'x', name: 'n', parameters: schema, strict: false }).function.parameters, c.value, 'the parameters of a defined tool')
      let yes = 0
      for (const input of inputs) {
        const r = await schema['~standard'].validate(input)
        const valid = !r.issues
        if (valid) yes++
        if (accepts(json, input) !== valid) env.fail(`the JSON Schema ${valid ? 'rejects' : 'accepts'} ${JSON.stringify(input)}, which the ${s.vendor} schema of ${s.types} ${valid ? 'accepts' : 'rejects'}: ${JSON.stringify(json)}`, undefined, s.key)
        const v = await t.value.validate(input)
        env.check(!v.issues === valid && (!valid || canon(v.value) === canon(r.value)), `the tool's validator says ${v.issues ? 'invalid' : canon(v.value)} about ${JSON.stringify(input)}`)
        const w = await L.validate(schema, input).then(value => ({ value }), error => ({ error }))
        env.check(valid ? canon(w.value) === canon(r.value) && !w.error : w.error instanceof Error, `validate() says ${w.error ?? canon(w.value)} about ${JSON.stringify(input)}`)
      }
      return `${s.vendor}${yes > 0}${yes < inputs.length}`
    }
    if (s.missing) {
      const c = await done(L.toJsonSchema(schemaFor(s.vendor, ['str', 'opt'])), 'the conversion')
      const needed = VENDOR[s.vendor].needs.includes(s.missing)
      if (!needed) { env.check(c.ok, `the conversion fails without ${s.missing}: ${c.error}`); env.check(accepts(JSON.parse(JSON.stringify(c.value)), { f0: 'x' }) && !accepts(JSON.parse(JSON.stringify(c.value)), { f1: 'x' }), `without ${s.missing} the conversion yields ${canon(c.value)}`) }
      else env.check(!c.ok && c.error instanceof Error && c.error.message.includes(s.missing), `without ${s.missing} the conversion ${c.ok ? `yields ${canon(c.value)}` : `fails with ${c.error}`}`)
      return `missing${needed}`
    }
    if (s.unsupported !== undefined) {
      const c = await done(L.toJsonSchema(FORMS[s.form]({ validate: value => ({ value }), vendor: s.unsupported, version: 1 })), 'the conversion')
      env.check(!c.ok && c.error instanceof Error && c.error.message.includes(`"${s.unsupported}"`), `a schema of vendor '${s.unsupported}' ${c.ok ? `is converted to ${canon(c.value)}` : `fails with ${c.error}`}`)
      return 'unsupported'
    }
    if (s.own !== undefined) {
      // a schema that offers its JSON Schema is asked for the input side, whoever made it
      const args = []
      const own = FORMS[s.form]({ jsonSchema: { input: (o) => { args.push(canon(o)); return { properties: { i: {} }, type: 'object' } }, output: () => ({ type: 'null' }) }, validate: value => ({ value }), vendor: s.own, version: 1 })
      const c = await done(L.toJsonSchema(own), 'the conversion')
      env.check(c.ok, `the conversion fails with ${c.error}`)
      env.expect(c.value, { properties: { i: {} }, type: 'object' }, 'the JSON Schema')
      env.expect(args, [canon({ target: 'draft-07' })], 'what was asked for')
      env.expect(asked, [], 'the dependencies loaded')
      const v = await done(L.validate(own, 7), 'validate')
      env.check(v.ok && v.value === 7, `validate() says ${canon(v.value ?? v.error)}`)
      const t = await done(L.tool({ execute: () => 'x', name: 'n', parameters: own }), 'the tool')
      env.check(t.ok, `a tool with this schema cannot be defined: ${t.error}`)
      return 'own'
    }
    const issues = { issue: [{ message: 'm' }], issues: [{ message: 'a' }, { message: 'b', path: ['x', 0] }], path: [{ message: 'p', path: [{ key: 'someKey' }, 'inner', 47] }] }[s.v]
    const value = { coerce: 5, emptyValue: '', nul: null, ok: { a: 1 }, undef: undefined }[s.v]
    const input = GIVEN[s.given]
    let seen = 0
    const f = (v) => { seen++; env.check(Object.is(v, input), `the validator is given something else than the ${s.given}`); if (s.v === 'throws') throw new RangeError('boom'); return issues ? { issues } : s.v === 'same' ? { value: v } : { value } }
    const r = await done((async () => L.validate(FORMS[s.form ?? 'literal']({ validate: s.mode === 'async' ? async v => f(v) : s.mode === 'thenable' ? (v) => { const p = Promise.resolve(f(v)); return p.then(x => x) } : f, vendor: 'check', version: 1 }), input))(), 'validate')
    env.check(seen === 1, `the validator is asked ${seen} times`)
    if (s.v === 'throws') env.check(!r.ok && r.error instanceof RangeError && r.error.message === 'boom', `a broken validator ${r.ok ? `yields ${canon(r.value)}` : `is reported as ${r.error}`}`)
    else if (issues) { env.check(!r.ok && r.error instanceof Error, `issues ${r.ok ? `yield ${canon(r.value)}` : `are reported as ${canon(r.error)}`}`); env.check(issues.every(i => r.error.message.includes(i.message)), `the error '${r.error.message}' does not tell the issues`); for (const i of issues) for (const k of i.path ?? []) env.check(r.error.message.includes(String(k?.key ?? k)), `the error '${r.error.message}' does not tell where the issue is`) }
    else if (s.v === 'same') env.check(r.ok && Object.is(r.value, input), `the ${s.given} is not returned as it is but ${r.ok ? 'as something else' : `reported as ${r.error}`}`)
    else { env.check(r.ok, `a valid value is reported as ${r.error}`); env.expect(r.value, value, 'the validated value') }
    return s.v
  },
}
