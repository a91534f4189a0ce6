import { canon, cutSets, cutsToPieces, sequences } from '../lib/util.mjs'

const PATTERNS = {
  'default': undefined, 'word': 'word', 'line': 'line',
  'char': /[^]/, 'comma': /,/, 'letters': /[ab]+/, 'word regexp': /\s*\S+\s+/, 'sentence': /[^.!?]*[.!?]/, 'b at the end': /b/, 'global': /b\s/g, 'two': /a.b/s, 'sticky': /[^]*?\n/y,
}
/** the two named modes, as documented by their names */
const NAMED = { default: /\s*\S+\s+/, line: /[^\n]*\n/, word: /\s*\S+\s+/ }
const every = (t, k) => { const out = []; for (let i = k; i < t.length; i += k) out.push(i); return out }

export default {
  id: 'C27',
  bundle: 'small',
  block: 32,
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'all strings of up to 5 characters over {a,b,space,newline} with every one of their cuts x word/line/default and 9 patterns (4 characters for the patterns); representative texts cut into up to 3 pieces and every piece length 1-6; texts of 5000 to 20000 characters; empty pieces between any of them (texts of up to 3 characters); delays 0/10/25/default in virtual time; simulated streams of up to 4 chunks x 3 initial x 3 chunk delays, read at once or later (within 1 deviation)',
    thorough: 'strings of up to 6 characters (5 for the patterns), texts cut into up to 4 pieces; 2 deviations',
  },
  * scenarios(tier) {
    const deep = tier === 'thorough'
    for (const p of Object.keys(PATTERNS)) {
      for (const seq of sequences(['a', 'b', ' ', '\n'], (p in NAMED ? 5 : 4) + (deep ? 1 : 0), 0)) yield { all: true, delay: 10, dev: 0, p, text: seq.join('') }
      for (const text of ['The quick brown fox\njumps, over. the lazy dog', '  lead and trail  ', 'nospacesatall', 'a.b!c? d', 'x,,y,z', 'é😀 \u3000日本 \t語\r\n end', '\n\n\n', 'a\u00a0b\u2003c\u2028d\fe\u200bf\v\rg']) for (const delay of [undefined, 0, 10, 25]) yield { delay, dev: 0, k: deep ? 3 : 2, p, text }
    }
    for (const chunks of [[], ['a'], ['a', 'b'], [1, undefined, 2], [{ x: 1 }, '', null, 'd']]) for (const initialDelay of [0, 5, 100]) for (const chunkDelay of [0, 7, 100]) for (const late of [false, true]) yield { chunkDelay, chunks, initialDelay, late }
    // pieces with nothing in them change nothing
    for (const p of Object.keys(PATTERNS)) {
      for (const seq of sequences(['a', 'b', ' ', '\n'], deep ? 4 : 3, 0)) yield { all: true, delay: 10, dev: 0, gaps: true, p, text: seq.join('') }
      for (const text of ['The quick  brown fox\n\njumps', '  lead and  trail  ', 'a.b!c? d', 'x,,y,z']) yield { delay: 10, dev: 0, gaps: true, k: deep ? 2 : 1, p, text }
    }
    // long texts, in one piece and in few
    for (const p of ['default', 'word', 'line', 'comma', 'char']) for (const text of ['word and, '.repeat(p === 'char' ? 450 : 600), `${'x'.repeat(20000)} y\n, `, ` ${'y '.repeat(40)}\n`.repeat(60)]) if (p !== 'char' || text.length < 6000) yield { delay: 10, dev: 0, few: true, p, text }
    for (const text of ['a b c', 'a\nb\nc']) for (const p of ['word', 'line']) for (const k of [1, 2, 3]) for (const e of ['err', 'str']) yield { broken: e, dev: 0, k, p, text }
    for (const text of ['a b c d', 'aa b\nc ']) for (const p of ['word', 'line']) yield { delay: 10, live: true, p, text }
  },
  async execute(env, s) {
    if (s.chunks) return await simulate(env, s)
    const smooth = () => env.lib.smoothStream(...(s.p === 'default' && s.delay === undefined ? [] : [{ ...(s.p === 'default' ? {} : { chunking: typeof PATTERNS[s.p] === 'string' ? PATTERNS[s.p] : new RegExp(PATTERNS[s.p]) }), ...(s.delay === undefined ? {} : { delay: s.delay }) }]))
    const delay = s.delay ?? 10
    env.horizon = 1e6
    if (s.broken) {
      const reason = s.broken === 'err' ? new Error('gone') : 'gone'
      const p = cutsToPieces(s.text, every(s.text, s.k)); let i = 0
      const r = env.collect(new ReadableStream({ pull(c) { if (i < p.length) c.enqueue(p[i++]); else c.error(reason) } }).pipeThrough(smooth()), 'out')
      await env.run()
      env.check(r.failed && r.error === reason, `the output does not fail with the input's error: ${canon(r.error)}`)
      env.check(s.text.startsWith(r.items.join('')), `the output before the failure is ${canon(r.items)}`)
      return 'failed'
    }
    const n = s.text.length
    const cuts = s.few ? [[], every(s.text, 4999), every(s.text, 1000)] : s.live ? [every(s.text, 2)] : s.all ? Array.from({ length: 2 ** Math.max(0, n - 1) }, (_, m) => Array.from({ length: n }, (_, i) => i + 1).filter(i => m >> (i - 1) & 1 && i < n)) : [...cutSets(n, s.k, 0), ...[1, 2, 3, 4, 5, 6].map(k => every(s.text, k))]
    const runs = []
    const gaps = xs => s.gaps ? [xs.flatMap(x => ['', x]).concat(''), ...Array.from({ length: xs.length + 1 }, (_, i) => [...xs.slice(0, i), '', '', ...xs.slice(i)])] : [xs]
    for (const pieces of cuts.flatMap(c => gaps(n ? cutsToPieces(s.text, c) : []))) {
      const at = []
      const input = s.live
        ? env.bodyStream(pieces, { name: 'in' })
        : new ReadableStream({ start(k) { for (const x of pieces) k.enqueue(x); k.close() } })
      runs.push([pieces, at, env.collect(input.pipeThrough(smooth()), 'out', (x) => { at.push(env.now); return x })])
    }
    await env.run()
    for (const [pieces, at, r] of runs) {
      const what = `${canon(pieces)} by ${s.p}`
      if (!r.done) env.fail(`the output for ${what} does not end: ${canon(r.error)}`)
      if (r.items.join('') !== s.text) env.fail(`the output for ${what}: expected ${canon(s.text)}, got ${canon(r.items)}`)
      const re = NAMED[s.p] ?? PATTERNS[s.p]
      for (const [i, x] of r.items.entries()) {
        if (i < r.items.length - 1 && !endsAtMatch(re, x)) env.fail(`the piece ${canon(x)} of the output for ${what} does not end at a match`)
        if (i > 0 && i < r.items.length - 1 && (s.live ? at[i] - at[i - 1] < delay : at[i] - at[i - 1] !== delay)) env.fail(`the pieces of the output for ${what} come at ${canon(at)} instead of every ${delay}`)
      }
      // a finished piece is not held back until the end
      const last = r.items.at(-1) ?? ''
      if (!s.live && s.p !== 'sticky' && s.p !== 'global') { const m = new RegExp(re.source, re.flags.replace('g', '')).exec(last); if (m && m.index + m[0].length < last.length) env.fail(`the last piece ${canon(last)} of the output for ${what} still holds a match`) }
    }
    return String(runs[0]?.[2].items.length)
  },
}

function endsAtMatch(re, piece) {
  for (const m of piece.matchAll(new RegExp(re.source, `${re.flags.replace(/[gy]/g, '')}g`))) if (m.index + m[0].length === piece.length) return true
  return false
}

async function simulate(env, s) {
  const items = []
  const given = [...s.chunks]
  const stream = env.lib.simulateReadableStream({ chunkDelay: s.chunkDelay, chunks: given, initialDelay: s.initialDelay })
  let rec
  const read = () => { rec = env.collect(stream, 'out', (x) => { items.push([env.now, x]); return x }) }
  if (s.late) env.action('read', read)
  else read()
  await env.run()
  env.check(rec.done, `the stream does not end: ${canon(rec.error)}`)
  env.expect(items.map(x => x[1]), s.chunks, 'the chunks')
  env.expect(given, s.chunks, 'the array of chunks given')
  for (const [i, [at]] of items.entries()) {
    const due = s.initialDelay + i * s.chunkDelay
    if (s.late ? at < due : at !== due) env.fail(`chunk ${i} comes at ${at} instead of ${due}`)
  }
  return String(items.length)
}
