// JSON schemas as data and an independent statement of what strictness does to them.
export const SCHEMAS = {
  flat: { properties: { n: { type: 'number' }, s: { description: 'd', type: 'string' } }, required: ['n'], type: 'object' },
  none: { type: 'object' },
  emptyProps: { properties: {}, type: 'object' },
  nested: { $schema: 'http://json-schema.org/draft-07/schema#', additionalProperties: true, properties: { a: { properties: { b: { properties: { c: { type: 'null' } }, type: 'object' }, l: { items: { type: 'string' }, type: 'array' } }, required: ['b'], type: 'object' }, z: { enum: ['x', null] } }, title: 'T', type: 'object' },
  open: { additionalProperties: { type: 'string' }, properties: { m: { additionalProperties: true, properties: { k: {} }, type: 'object' }, o: { type: 'object' } }, type: 'object' },
  bools: { properties: { any: true, no: false, type: { type: 'string' }, properties: { properties: { type: { type: 'object' } }, type: 'object' } }, type: 'object' },
  // names a JSON document may use although objects have them already
  names: JSON.parse('{"type":"object","properties":{"__proto__":{"type":"object","properties":{"toString":{"type":"string"}}},"constructor":{"type":"object"},"hasOwnProperty":true}}'),
  protoOnly: JSON.parse('{"type":"object","properties":{"__proto__":{"type":"string"}},"required":["__proto__"]}'),
  str: { minLength: 1, type: 'string' },
  // references to the whole, to named parts, to parts that refer to each other; what merely looks like one
  tree: { properties: { children: { items: { $ref: '#' }, type: 'array' }, name: { type: 'string' } }, required: ['name', 'children'], type: 'object' },
  defs: { $defs: { p: { properties: { x: { $ref: '#/$defs/q' } }, type: 'object' }, q: { type: 'number' } }, anyOf: [{ $ref: '#/$defs/p' }, { type: 'null' }], properties: { a: { $ref: '#/$defs/p' } }, type: 'object' },
  mutual: { definitions: { 'a/b': { items: { $ref: '#/definitions/c' }, type: 'array' }, 'c': { properties: { up: { $ref: '#/definitions/a~1b' }, whole: { $ref: '#' } }, type: 'object' } }, properties: { l: { $ref: '#/definitions/a~1b' }, m: { properties: { c: { $ref: '#/definitions/c' } }, type: 'object' }, s: { $ref: '#/properties/m/properties/c' } }, type: 'object' },
  alike: { default: { $ref: '#' }, properties: { $ref: { const: { $ref: '#/x' }, type: 'object' }, default: { $ref: '#/properties/$ref' }, definitions: { enum: ['#', { $ref: '#' }] } }, type: 'object' },
  named: { $id: 'http://example.org/tree', properties: { next: { $ref: '#' } }, type: 'object' },
}
const DATA = ['const', 'default', 'enum', 'examples']
const MAPS = ['dependencies', 'dependentSchemas', 'patternProperties', 'properties']
const at = (doc, ref) => ref.slice(1).split('/').slice(1).reduce((v, k) => v?.[decodeURIComponent(k).replaceAll('~1', '/').replaceAll('~0', '~')], doc)
/** does schema `a` of document `da` mean what `b` of `db` means: equal but for where the parts they refer to are kept */
export const sameMeaning = (da, a, db, b, seen = new Map()) => {
  if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => sameMeaning(da, x, db, b[i], seen))
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return a === b
  if (seen.get(a)?.has(b)) return true
  seen.set(a, (seen.get(a) ?? new Set()).add(b))
  if ('$id' in a) da = a
  if ('$id' in b) db = b
  const keys = x => Object.keys(x).filter(k => k !== '$defs' && k !== 'definitions').sort()
  if (JSON.stringify(keys(a)) !== JSON.stringify(keys(b))) return false
  return keys(a).every((k) => {
    const [x, y] = [a[k], b[k]]
    if (k === '$ref' && typeof x === 'string' && typeof y === 'string') {
      if (!/^#(?:\/|$)/.test(y)) return x === y
      const [p, q] = [at(da, x), at(db, y)]
      return p !== undefined && sameMeaning(da, p, db, q, seen)
    }
    if (DATA.includes(k)) return JSON.stringify(x) === JSON.stringify(y)
    if (MAPS.includes(k) && x && y && typeof x === 'object' && typeof y === 'object') return JSON.stringify(Object.keys(x).sort()) === JSON.stringify(Object.keys(y).sort()) && Object.keys(y).every(n => sameMeaning(da, x[n], db, y[n], seen))
    return sameMeaning(da, x, db, y, seen)
  })
}
/** the schema of an array answer: its items are judged by their meaning if they refer to parts of themselves */
export const arrayOf = (want, sent, fail) => {
  if (JSON.stringify(want).includes('"$ref"') && sent?.properties?.elements?.items) {
    if (!sameMeaning(sent, sent.properties.elements.items, want, want)) fail(`the schema of the elements ${JSON.stringify(sent)} does not mean the same as ${JSON.stringify(want)}`)
    const { $defs, definitions, ...rest } = sent
    return { ...($defs ? { $defs } : {}), ...(definitions ? { definitions } : {}), properties: { elements: { items: sent.properties.elements.items, type: 'array' } }, required: ['elements'], type: 'object' }
  }
  return { properties: { elements: { items: want, type: 'array' } }, required: ['elements'], type: 'object' }
}
/** additional properties forbidden on the root and every nested property object, nothing else changed */
export const strictOf = s => ({
  ...s,
  additionalProperties: false,
  ...(s.properties ? { properties: Object.fromEntries(Object.entries(s.properties).map(([k, v]) => [k, v !== null && typeof v === 'object' && v.type === 'object' ? strictOf(v) : v])) } : {}),
})
export const deepFreeze = (v) => { if (v && typeof v === 'object' && !Object.isFrozen(v)) { Object.freeze(v); Object.values(v).forEach(deepFreeze) } return v }

/** the same Standard Schema, but an instance of a class whose methods need their object and whose members are inherited */
class OwnJson {
  #j
  constructor(j) { this.#j = j }
  input(...a) { return this.#j.input(...a) }
  output(...a) { return this.#j.output(...a) }
}
class OwnStd {
  #s
  constructor(s) { this.#s = s }
  get jsonSchema() { return new OwnJson(this.#s.jsonSchema) }
  get vendor() { return this.#s.vendor }
  get version() { return this.#s.version }
  validate(...a) { return this.#s.validate(...a) }
}
class OwnSchema {
  #s
  constructor(s) { this.#s = s }
  get '~standard'() { return this.#s }
}
export const ownSchema = schema => new OwnSchema(new OwnStd(schema['~standard']))
