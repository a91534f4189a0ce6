// Streaming an object: the documents, the ways of cutting them, and the driver.
import { chunkOf, sseText } from './chat.mjs'
import { schema } from './kinds.mjs'

/** pieces -> SSE body; how: where the pieces sit in the protocol */
export const bodyOf = (pieces, how = 'plain', tools = []) => {
  const out = []
  if (how === 'role' || how === 'noise') out.push(chunkOf({ content: '', role: 'assistant' }))
  pieces.forEach((p, i) => {
    if (how === 'noise') { out.push(chunkOf({ reasoning_content: `r{${i}` })); out.push(chunkOf({ content: null })); out.push({ ...chunkOf({}), choices: [] }) }
    out.push(chunkOf({ content: p }, how === 'finish' && i === pieces.length - 1 ? { finish_reason: 'stop' } : {}))
    if (how === 'noise') out.push(chunkOf({ content: '' }))
  })
  if (how !== 'finish') out.push(chunkOf({}, { finish_reason: 'stop' }))
  out.push({ ...chunkOf({}), choices: [], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } })
  return sseText(out)
}
export const TOOL_BODY = sseText([chunkOf({ tool_calls: [{ function: { arguments: '{"x":"1"}', name: 'a' }, id: 'c1', index: 0, type: 'function' }] }), chunkOf({}, { finish_reason: 'tool_calls' })])

export const startObject = (env, output, bodies, { error, hasError, onText, onItem, slow, noText, perMessage } = {}) => {
  let n = 0
  const h = {}
  const o = {
    baseURL: 'http://srv/v1/',
    fetch: (i, init) => env.fetchWith(() => { const b = bodies[n++] ?? ''; const chunks = perMessage ? b.split(/(?<=\n\n)/) : [b]; return { auto: !perMessage, chunks, headers: { 'content-type': 'text/event-stream' }, ...(hasError ? { error } : {}) } }, i, init, (r) => { (h.requests ??= []).push(r) }),
    messages: [{ content: 'hi', role: 'user' }],
    model: 'm',
    schema: schema(v => ({ value: v })),
    stopWhen: ({ steps }) => steps.length >= 4,
    tools: [{ execute: () => 'r', function: { name: 'a', parameters: {} }, type: 'function' }],
  }
  if (output) o.output = output
  const name = output === 'array' ? 'elementStream' : 'partialObjectStream'
  const other = output === 'array' ? 'partialObjectStream' : 'elementStream'
  h.call = env.watch(env.lib.streamObject(o).then((r) => {
    if (r[other] != null) env.fail(`there is a ${other} in ${output ?? 'object'} mode`)
    if (!noText) h.text = env.collect(r.textStream, 'text', (x) => { onText?.(x); return x })
    if (!slow) h.items = env.collect(r[name], 'items', (x) => { h.refs = [...(h.refs ?? []), x]; onItem?.(x); return structuredClone(x) })
    else {
      const rec = h.items = { done: false, failed: false, items: [] }
      const reader = r[name].getReader()
      const take = () => env.action('read', () => { reader.read().then(({ done, value }) => { if (done) { rec.done = true; return } h.refs = [...(h.refs ?? []), value]; rec.items.push(structuredClone(value)); env.log('item', value); take() }, (e) => { rec.failed = true; rec.error = e }) })
      take()
    }
    h.steps = env.watch(r.steps, 'steps')
    return 'ok'
  }), 'call')
  return h
}

// ---- an independent reading of incomplete JSON -------------------------------
/** the values that are certainly there: complete members, containers opened so far (strict JSON, no exponents needed) */
export const certain = (t, growing = false) => {
  let i = 0
  const N = Symbol('nothing')
  const ws = () => { while (i < t.length && ' \n\r\t'.includes(t[i])) i++ }
  const str = (value) => { // returns complete string or N; of a value that is still growing what has arrived of it
    const from = i++
    while (i < t.length && t[i] !== '"') i += t[i] === '\\' ? 2 : 1
    if (i >= t.length) {
      i = t.length
      if (!value || !growing) return N
      for (let cut = t.length; cut > from && cut > t.length - 6; cut--) { try { return JSON.parse(`${t.slice(from, cut)}"`) } catch {} }
      return N
    }
    i++
    return JSON.parse(t.slice(from, i))
  }
  const val = () => {
    ws()
    if (i >= t.length) return N
    if (t[i] === '{') {
      i++; const o = {}
      for (;;) {
        ws(); if (i >= t.length) return o
        if (t[i] === '}') { i++; return o }
        if (t[i] === ',') { i++; continue }
        const k = str(); if (k === N) return o
        ws(); if (i >= t.length) return o
        i++
        const v = val(); if (v === N) return o
        o[k] = v
      }
    }
    if (t[i] === '[') {
      i++; const a = []
      for (;;) {
        ws(); if (i >= t.length) return a
        if (t[i] === ']') { i++; return a }
        if (t[i] === ',') { i++; continue }
        const v = val(); if (v === N) return a
        a.push(v)
      }
    }
    if (t[i] === '"') return str(true)
    const m = /^[-+.\dA-Za-z]+/.exec(t.slice(i))[0]
    i += m.length
    return i >= t.length ? N : JSON.parse(m)
  }
  const v = val()
  return v === N ? undefined : v
}
/** everything in a is in b (containers may have grown; only the last element of an array may differ) */
export const within = (a, b, leaf) => {
  if (a === undefined) return true
  if (Array.isArray(a)) return Array.isArray(b) && a.length <= b.length && a.every((x, i) => within(x, b[i], leaf))
  if (a !== null && typeof a === 'object') return b !== null && typeof b === 'object' && !Array.isArray(b) && Object.keys(a).every(k => a[k] === undefined || (Object.hasOwn(b, k) && within(a[k], b[k], leaf)))
  return leaf(a, b)
}
export const exact = (a, b) => Object.is(a, b) || a === b
/** a is how b may look while it is still arriving */
export const onTheWay = (a, b) => {
  if (exact(a, b)) return true
  if (typeof b === 'string') return typeof a === 'string' && b.startsWith(a)
  if (typeof b === 'number') return typeof a === 'number' && (a === 0 || String(b).startsWith(String(a)))
  return false
}
