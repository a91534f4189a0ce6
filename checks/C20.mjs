import { bodyOf, certain, exact, onTheWay, startObject, TOOL_BODY, within } from '../lib/objstream.mjs'
import { canon, cutSets, cutsToPieces, product } from '../lib/util.mjs'

const DOCS = {
  empty: {}, one: { a: 1 }, strs: { a: '', b: 'x,"}', c: 'é😀\n\\"', d: '日本' }, nums: { n: 12, m: -3.25, z: 0 }, lits: { a: true, b: false, c: null }, list: { l: [1, 22, 333], e: [] }, deep: { a: { b: { c: { d: [{}, { e: 'f' }] } } } },
  odd: { 'a b': 1, 'é': 2, constructor: 3, toJSON: 'x', length: 0 }, slashes: { u: 'http://x//y/*z*/', h: '<!--x-->' }, same: { a: [1, 1], b: [1, 1] }, likeJson: { a: '[1,]', b: ',}', c: '{"a":1,}', d: [',', ']'] }, ends: { p: 'C:\\', q: '\\"', r: ['\\\\', '"'], s: '\t' }, spaces: { ' ': ' ', 'x': '  y  ', 'a, b': 'c : d' }, words: { null: 'null', t: 'true', n: '1', c: '// x /* y */', q: "it's", b: '`' }, lines: { a: '\u2028 \n\r', b: '\t\t', c: 'b' }, zeros: { a: 0, b: 0.5, c: 10, d: 1000000, l: [0, 0, 100] }, long: { t: 'lorem ipsum dolor sit amet', n: [1, 2, 3, 4, 5] },
}
const forms = { compact: d => JSON.stringify(d), pretty: d => JSON.stringify(d, null, 2), spaced: d => ` ${JSON.stringify(d).replaceAll(':', ' : ')}\n ` }
export default {
  id: 'C20',
  block: 16,
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '17 documents in 3 textual forms, every cut into up to 3 deltas (short compact ones, up to 2 otherwise), every delta length 1-9, all 2^n cuts of an 11-character document, 5 protocol embeddings, both ways of asking for object mode; 3 documents with repeated keys; slow readers and message-by-message arrival within 1 deviation; failures at every position; textless runs',
    thorough: 'cuts into up to 4 deltas (short) or 3; all 2^n cuts of a 15-character document; 2 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const d of Object.keys(DOCS)) for (const form of Object.keys(forms)) {
      const t = forms[form](DOCS[d])
      yield { cuts: [], d, form }
      for (let k = 1; k < 10; k++) yield { cuts: every(t, k), d, form, output: k % 2 ? 'object' : undefined }
      for (const cuts of cutSets(t.length, form === 'compact' && t.length < 50 ? T ? 3 : 2 : T && t.length < 90 ? 2 : 1, 1)) yield { cuts, d, form }
      for (const how of ['role', 'finish', 'noise', 'tool']) for (const k of [1, 3, 7, 1000]) yield { cuts: every(t, k), d, form, how }
    }
    const doc = T ? '{"a":[1,"b"],"c":2}'.slice(0, 12) + ',"c":1}' : '{"a":[1,{}]}'
    for (const mask of product(Array.from({ length: Math.min(doc.length - 1, T ? 16 : 11) }, () => [0, 1]))) yield { cuts: mask.flatMap((b, i) => b ? [i + 1] : []), doc }
    // keys given twice: the later value counts, as in every reader of JSON
    for (const twice of ['{"a":1,"a":2}', '{"a":"x","b":{"c":1,"c":2},"a":"y"}', '{"a":[1],"a":[2]}']) { for (const cuts of cutSets(twice.length, T ? 3 : 2, 1)) yield { cuts, doc: twice, twice: true }; yield { cuts: every(twice, 1), doc: twice, twice: true } }
    for (const d of ['strs', 'nums', 'list', 'same']) for (const k of [1, 4, 1000]) { yield { cuts: every(forms.compact(DOCS[d]), k), d, dev: 1, form: 'compact', slow: true }; if (k > 1) yield { cuts: every(forms.compact(DOCS[d]), k), d, dev: T ? 2 : 1, form: 'compact', perMessage: true, slow: true } }
    for (const d of ['strs', 'list']) { const t = forms.compact(DOCS[d]); for (let at = 1; at <= t.length; at++) yield { broken: at, cuts: every(t.slice(0, at), 3), d, form: 'compact' } }
    for (const output of [undefined, 'object', 'array']) for (const pieces of [[], [''], ['', '']]) for (const how of ['plain', 'role', 'noise', 'tool']) yield { how, output, textless: pieces }
  },
  async execute(env, s) {
    if (s.textless) {
      const body = bodyOf(s.textless, s.how)
      const h = startObject(env, s.output, s.how === 'tool' ? [TOOL_BODY, body] : [body])
      await env.run()
      for (const [k, r] of [['text', h.text], [s.output === 'array' ? 'element' : 'partial-object', h.items]]) {
        env.check(r.failed, `the ${k} stream ${r.done ? 'ends normally' : 'never ends'} although the run gave no text`)
        env.check(r.error instanceof Error && r.error.code === 'invalid_response', `the ${k} stream should fail with an invalid-response error, fails with ${canon(r.error)}`)
      }
      env.expect(h.items.items, [], 'items of a textless run')
      return 'textless'
    }
    const text = s.doc ?? forms[s.form](DOCS[s.d])
    const final = JSON.parse(text)
    const sent = s.broken ? text.slice(0, s.broken) : text
    const pieces = cutsToPieces(sent, s.cuts)
    let body = bodyOf(pieces, s.how)
    if (s.broken) body = body.replace(/data: [^\n]*finish_reason[^]*$/, 'data: {"error":{"message":"gone"}}\n\n')
    const h = startObject(env, s.output, s.how === 'tool' ? [TOOL_BODY, body] : [body], { perMessage: s.perMessage, slow: s.slow })
    await env.run()
    env.check(h.call.ok, `the call fails: ${canon(h.call.error)}`)
    const got = h.items.items
    // every snapshot is a reading of one of the texts received so far, in order: at least what certainly had arrived, at most what was on its way
    const texts = []; let acc = ''
    for (const p of pieces) texts.push(acc += p)
    let at = 0
    got.forEach((snap, i) => {
      env.check(snap !== null && typeof snap === 'object', `snapshot ${i} is ${canon(snap)}`)
      if (s.twice) return i && env.check(canon(snap) !== canon(got[i - 1]), `the snapshot ${canon(snap)} is repeated`)
      env.check(within(snap, final, onTheWay), `snapshot ${canon(snap)} is no stage of ${text}`)
      if (i) env.check(canon(snap) !== canon(got[i - 1]), `the snapshot ${canon(snap)} is repeated`)
      while (at < texts.length && !(within(certain(texts[at]), snap, exact) && within(snap, certainOrGrowing(texts[at]), onTheWay))) at++
      env.check(at < texts.length, `snapshot ${canon(snap)} reads none of the remaining texts received (cut as ${JSON.stringify(pieces)})`)
    })
    env.expect(h.refs ?? [], got, 'snapshots after the end (earlier ones were modified)')
    const lost = want => got.length ? within(want, got.at(-1), exact) : want === undefined || canon(want) === '{}'
    if (s.broken) {
      env.check(h.items.failed, 'the partial-object stream does not fail although the server reported an error')
      return canon(got)
    }
    env.check(!h.items.failed, `the partial-object stream fails with ${canon(h.items.error)}`)
    env.check(h.items.done, 'the partial-object stream never ends')
    env.check(lost(final), `the last snapshot of ${text} is ${canon(got.at(-1))}`)
    if (got.length) env.expect(got.at(-1), final, `last snapshot of ${text}`)
    env.expect(h.text.items.join(''), text, 'text')
    // each text received has its snapshot: what has arrived of it, strings that are still growing included, and nothing more
    if (!s.twice) {
      let p = 0
      for (const t of texts) {
        const c = certain(t, true)
        if (c === undefined || canon(c) === '{}') continue
        while (p < got.length && !(within(c, got[p], onTheWay) && within(got[p], certainOrGrowing(t), onTheWay))) p++
        env.check(p < got.length, `no snapshot is the reading of ${JSON.stringify(t)} (${canon(c)}): ${canon(got)}`)
      }
    }
    return canon(got)
  },
}
/** the final document cut at this text: nothing in a snapshot may come from text not received yet */
function certainOrGrowing(t) {
  // close the text in the most generous way that adds nothing
  let str = false; const stack = []
  for (let i = 0; i < t.length; i++) {
    const c = t[i]
    if (str) { if (c === '\\') i++; else if (c === '"') str = false; continue }
    if (c === '"') str = true
    else if (c === '{') stack.push('}')
    else if (c === '[') stack.push(']')
    else if (c === '}' || c === ']') stack.pop()
  }
  const close = stack.reverse().join('')
  const base = str ? t.replace(/(?<=(?:^|[^\\])(?:\\\\)*)\\(u[\da-f]{0,3})?$/i, '') + '"' : t
  const lit = base.replace(/(?<=[[:,{\s])(t|tr|tru)$/, 'true').replace(/(?<=[[:,{\s])(f|fa|fal|fals)$/, 'false').replace(/(?<=[[:,{\s])(n|nu|nul)$/, 'null').replace(/-$/, '0').replace(/\.$/, '')
  for (const x of [lit, lit.replace(/,\s*$/, ''), lit.replace(/,?\s*"(?:[^"\\]|\\.)*"\s*:?\s*$/, ''), lit.replace(/:\s*$/, ':null')]) { try { return JSON.parse(x + close) } catch {} }
  return undefined
}
function every(t, k) { const out = []; for (let i = k; i < t.length; i += k) out.push(i); return out }
