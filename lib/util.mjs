// cyrb53-style incremental hash, deterministic and fast
export class Hash {
  constructor(seed = 0) { this.h1 = 0xDEADBEEF ^ seed; this.h2 = 0x41C6CE57 ^ seed }
  add(str) {
    let { h1, h2 } = this
    for (let i = 0; i < str.length; i++) {
      const ch = str.charCodeAt(i)
      h1 = Math.imul(h1 ^ ch, 2654435761)
      h2 = Math.imul(h2 ^ ch, 1597334677)
    }
    this.h1 = Math.imul(h1 ^ 0x1F, 2654435761); this.h2 = Math.imul(h2 ^ 0x1F, 1597334677)
    return this
  }
  value() {
    let { h1, h2 } = this
    h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909)
    h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909)
    return 4294967296 * (2097151 & h2) + (h1 >>> 0)
  }
}
export const hashOf = s => new Hash().add(s).value()

/** Canonical text of a value for comparison: key order is irrelevant, undefined members are dropped, errors and bytes are named. */
export const canon = (v, depth = 0) => {
  if (v === undefined) return 'undefined'
  if (v === null) return 'null'
  const t = typeof v
  if (t === 'string') return JSON.stringify(v)
  if (t === 'number') return Object.is(v, -0) ? '-0' : String(v)
  if (t === 'boolean') return String(v)
  if (t === 'bigint') return `${v}n`
  if (t === 'function') return '[fn]'
  if (t === 'symbol') return String(v)
  if (depth > 60) return '[deep]'
  if (Array.isArray(v)) {
    const out = []
    for (let i = 0; i < v.length; i++) out.push(i in v ? canon(v[i], depth + 1) : '<hole>')
    return `[${out.join(',')}]`
  }
  if (v instanceof Uint8Array) return `bytes(${[...v].join(' ')})`
  if (v instanceof ArrayBuffer) return `bytes(${[...new Uint8Array(v)].join(' ')})`
  if (v instanceof Error || (typeof DOMException !== 'undefined' && v instanceof DOMException)) return `<${v.name}:${v.message}>`
  if (v instanceof URL) return `URL(${v.href})`
  if (v instanceof Headers) return `Headers(${canon(Object.fromEntries(v.entries()))})`
  const keys = Object.keys(v).filter(k => v[k] !== undefined).sort()
  return `{${keys.map(k => `${JSON.stringify(k)}:${canon(v[k], depth + 1)}`).join(',')}}`
}
export const same = (a, b) => canon(a) === canon(b)
export const clone = v => structuredClone(v)

/** All ways to choose from each array: product([[a,b],[c]]) */
export function* product(lists) {
  if (lists.length === 0) { yield []; return }
  const idx = lists.map(() => 0)
  if (lists.some(l => l.length === 0)) return
  for (;;) {
    yield idx.map((i, k) => lists[k][i])
    let k = idx.length - 1
    while (k >= 0 && ++idx[k] === lists[k].length) idx[k--] = 0
    if (k < 0) return
  }
}
/** all sequences over alphabet with length in [min,max], shortest first */
export function* sequences(alphabet, max, min = 0) {
  for (let n = min; n <= max; n++) yield* product(Array.from({ length: n }, () => alphabet))
}
/** all subsets of size <=k of {1..n-1} as sorted cut lists, fewest first */
export function* cutSets(n, k, min = 0) {
  const rec = function* (start, left, acc) {
    if (left === 0) { yield acc; return }
    for (let i = start; i < n; i++) yield* rec(i + 1, left - 1, [...acc, i])
  }
  for (let j = min; j <= Math.min(k, n - 1); j++) yield* rec(1, j, [])
}
/** all subsets as boolean masks */
export const cutsToPieces = (s, cuts) => {
  const out = []; let p = 0
  for (const c of cuts) { out.push(s.slice(p, c)); p = c }
  out.push(s.slice(p))
  return out
}
export const subsets = (xs) => {
  const out = []
  for (let m = 0; m < 1 << xs.length; m++) out.push(xs.filter((_, i) => m >> i & 1))
  return out.sort((a, b) => a.length - b.length)
}
export const permutations = (xs) => {
  if (xs.length <= 1) return [xs]
  return xs.flatMap((x, i) => permutations([...xs.slice(0, i), ...xs.slice(i + 1)]).map(r => [x, ...r]))
}
