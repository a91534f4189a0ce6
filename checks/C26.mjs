import { canon, cutSets, cutsToPieces, sequences } from '../lib/util.mjs'

/** the reading of a text as alternating segments, straight from the definition */
const segments = (text, tag, start) => {
  const out = []
  let inside = !!start
  let rest = text
  for (;;) {
    const t = inside ? `</${tag}>` : `<${tag}>`
    const i = rest.indexOf(t)
    out.push({ closed: i >= 0, inside, text: i < 0 ? rest : rest.slice(0, i) })
    if (i < 0) return out
    rest = rest.slice(i + t.length)
    inside = !inside
  }
}
const TAGS = ['t', 'think', 'a.b', 'tt']
const tokens = tag => ['x', `<${tag}>`, `</${tag}>`, '<', `</${tag[0]}`, '>', '\n']
const every = (t, k) => { const out = []; for (let i = k; i < t.length; i += k) out.push(i); return out }
const OPTIONS = tag => [{ tagName: tag }, { startWithReasoning: true, tagName: tag }, { separator: ' | ', tagName: tag }, { separator: '', startWithReasoning: true, tagName: tag }, { startWithReasoning: false, tagName: tag }]

export default {
  id: 'C26',
  bundle: 'small',
  block: 32,
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: 'all sequences of up to 4 tokens (letter, tags, tag fragments, newline) x 5 option settings, whole and streamed: every cut into up to 3 pieces, and pieces of every length 1-4; all strings of up to 5 characters over {x,<,/,t,>} with every one of their cuts; tag names of up to 65 characters; 4 tag names (3 tokens for the longer ones); look-alike tags; input failing after every piece; one output cancelled at every point',
    thorough: 'sequences of up to 5 tokens, every cut into up to 4 pieces for up to 4 tokens; strings of up to 7 characters with every one of their cuts',
  },
  * scenarios(tier) {
    const deep = tier === 'thorough'
    for (const tag of TAGS) for (const seq of sequences(tokens(tag), tag === 't' ? (deep ? 5 : 4) : deep ? 4 : 3, 0)) for (const o of OPTIONS(tag).keys()) {
      if (!deep && seq.length === 4 && o > 1) continue
      yield { k: deep && seq.length < 5 ? 3 : 2, o, tag, text: seq.join('') }
    }
    // long tag names, cut everywhere
    for (const n of [11, 17, 33, 65]) for (const text of [a => `<${a}>r</${a}>y`, a => `x<${a}>r`, a => `x</${a}>y<${a}`, a => `<${a.slice(1)}>r</${a}x>`]) for (let o = 0; o < 5; o++) { const tag = 'internal_reasoning-'.repeat(4).slice(0, n); yield { k: n < 40 ? 2 : 1, o, tag, text: text(tag) } }
    for (const seq of sequences(['x', '<', '/', 't', '>'], deep ? 7 : 5, 0)) for (const o of deep && seq.length > 5 ? [0] : [0, 1]) yield { all: true, o, tag: 't', text: seq.join('') }
    for (const text of ['<axb>r</axb>y', '<a.b>r</a.b>y', '<axb>r</a.b>y', '<a.b>r</axb>s</a.b>']) for (let o = 0; o < 5; o++) yield { k: 2, o, tag: 'a.b', text }
    for (const text of ['<Think>r</Think>', '<think >r</think >', '<thinking>r</thinking>', '<think>é😀\u2028</think>ü', 'a<think>1</think>b<think>2</think>c<think>3</think>', '<think></think>', '<<think>>r<</think>>', '</think>a<think>b', '<think>\r\n</think>\r\n']) for (let o = 0; o < 5; o++) yield { k: 2, o, tag: 'think', text }
    for (const text of ['<t>ab</t>cd<t>e</t>', 'ab<t>c', 'a</t>b', 'a<']) for (let o = 0; o < 2; o++) for (let at = 0; at <= text.length; at++) for (const e of ['err', 'str']) yield { at, broken: e, o, tag: 't', text }
    for (const text of ['<t>ab</t>cd<t>e</t>', 'ab<t>c', 'a</t>b', 'x', '<t>r']) for (let o = 0; o < 5; o++) for (const cancel of ['reasoningStream', 'textStream']) yield { cancel, dev: deep ? 2 : 1, o, tag: 't', text }
    for (const text of ['', 'x', '<think>r</think>t']) yield { defaults: true, k: 2, tag: 'think', text }
  },
  async execute(env, s) {
    const o = s.defaults ? undefined : { ...OPTIONS(s.tag)[s.o] }
    const sep = o?.separator ?? '\n'
    const segs = segments(s.text, s.tag, o?.startWithReasoning)
    const joined = inside => segs.filter(x => x.inside === inside && x.text !== '').map(x => x.text).join(sep)
    if (s.broken) {
      const reason = s.broken === 'err' ? new Error('gone') : 'gone'
      const p = [...s.text].slice(0, s.at)
      let i = 0
      const input = new ReadableStream({ pull(c) { if (i < p.length) c.enqueue(p[i++]); else c.error(reason) } })
      const r = env.lib.extractReasoningStream(input, o)
      const a = env.collect(r.reasoningStream, 'reasoning'); const b = env.collect(r.textStream, 'text')
      await env.run()
      for (const x of [a, b]) env.check(x.failed && x.error === reason, `the ${x.name} stream does not fail with the input's error: ${canon(x.error)}, ended ${x.done}`)
      env.check(joined(true).startsWith(a.items.join('')) && joined(false).startsWith(b.items.join('')), `before the failure of the input ${canon(p)}: reasoning ${canon(a.items)}, text ${canon(b.items)}`)
      return 'failed'
    }
    if (s.cancel) {
      const r = env.lib.extractReasoningStream(env.bodyStream(cutsToPieces(s.text, every(s.text, 2)), { name: 'in' }), o)
      const other = s.cancel === 'textStream' ? 'reasoningStream' : 'textStream'
      const rec = env.collect(r[other], other)
      let first
      env.action('cancel', () => { first = env.watch(r[s.cancel].cancel('enough'), 'cancel') }, { optional: true })
      await env.run()
      env.check(rec.done, `the ${other} does not end although only the ${s.cancel} was cancelled: ${canon(rec.error)}`)
      env.expect(rec.items.join(''), joined(other === 'reasoningStream'), `the ${other} beside a cancelled one`)
      env.check(!first || first.ok, 'the cancellation fails')
      return first ? 'cancelled' : 'whole'
    }
    // ---- the complete text
    const whole = env.lib.extractReasoning(s.text, o)
    const blocks = segs.filter(x => x.inside && x.closed)
    if (blocks.length) {
      // an unfinished block stays in the remaining text
      const last = segs.at(-1)
      const rest = segs.filter(x => !x.inside).map(x => x.text)
      if (last.inside) rest[rest.length - 1] += `<${s.tag}>${last.text}`
      env.expect(whole.reasoning, blocks.map(x => x.text).join(sep), `the reasoning of ${canon(s.text)}`)
      env.expect(whole.text, rest.filter(x => x !== '').join(sep), `the text of ${canon(s.text)}`)
    }
    else {
      env.expect([whole.reasoning, whole.text], [undefined, s.text], `a text without a complete block (${canon(s.text)})`)
    }
    // ---- streamed
    const n = s.text.length
    const cuts = s.all ? Array.from({ length: 2 ** Math.max(0, n - 1) }, (_, m) => Array.from({ length: n }, (_, i) => i + 1).filter(i => m >> (i - 1) & 1 && i < n)) : [...cutSets(n, s.k, 0), every(s.text, 1), every(s.text, 3), every(s.text, 4)]
    const runs = []
    for (const c of cuts) {
      const pieces = n ? cutsToPieces(s.text, c) : []
      for (const p of c.length === 1 ? [pieces, ['', ...pieces], [pieces[0], '', ...pieces.slice(1)]] : [pieces]) {
        const r = env.lib.extractReasoningStream(new ReadableStream({ start(k) { for (const x of p) k.enqueue(x); k.close() } }), o && { ...o })
        runs.push([p, env.collect(r.reasoningStream, 'r'), env.collect(r.textStream, 't')])
      }
    }
    await env.run()
    const [wr, wt] = [joined(true), joined(false)]
    for (const [p, a, b] of runs) {
      if (!a.done || !b.done) env.fail(`the streams for ${canon(p)} do not both end: ${canon([a.done, a.error, b.done, b.error])}`)
      if (a.items.join('') !== wr) env.fail(`the reasoning stream for ${canon(p)}: expected ${canon(wr)}, got ${canon(a.items.join(''))}`)
      if (b.items.join('') !== wt) env.fail(`the text stream for ${canon(p)}: expected ${canon(wt)}, got ${canon(b.items.join(''))}`)
    }
    return `${wr}|${wt}`
  },
}
