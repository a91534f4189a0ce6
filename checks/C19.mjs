import { bodyOf, startObject, TOOL_BODY } from '../lib/objstream.mjs'
import { canon, cutSets, cutsToPieces, product } from '../lib/util.mjs'

const LISTS = {
  empty: [], one: [{ n: 1 }], objs: [{ n: 1 }, { n: 22 }, { n: 3 }], nums: [1, 12, 123, -4.5], strs: ['a', '', 'b,"c]', 'é😀\n\\'], mixed: [null, true, false, 0, ''], same: [{ a: 1 }, { a: 1 }, { a: 1 }],
  nested: [{ l: [1, [2]], o: { p: {} } }, { l: [], o: {} }, []], keys: [{ elements: [1, 2, 3] }, { elements: [] }], slashes: [{ u: 'http://x//y/*z*/' }, { h: '<!--x-->' }], deep: [[[[]]], [[1]]], endNull: [1, null], onlyNull: [null], nulls: [null, null], endFalse: [{ a: 1 }, false], endZero: ['a', 0], endEmpty: [null, {}, []], endNaught: ['x', null, ''], likeJson: ['[1,]', ',}', '{"a":1,}', '{"elements":[0]}', ']', '}'], ends: ['C:\\', '\\"', '"', '\\\\', '\t', '\u0000\u2028', 'a\uD83D'], spaces: ['', ' ', '  x  ', 'a, b', 'a : b'], words: ['null', 'true', '1', '// x', '/* y */', "it's", '`'],
  closers: ['}]}', ']}', '"}]}', '"]}', ' ] } ', '}]}\n'], closerObjs: [{ a: '}]}' }, { b: ']}', c: 1 }, { d: '"}]}' }], closerKeys: [{ '}]}': 1 }, { ']}': [] }, { '"]': {} }], openers: ['{"elements":[', '[{', '{'], afterClose: ['x}]}', 1, ']}', { a: 1 }],
  lookalikes: [{ '': '', ' ': [','], '"': ']', 'elements': '[' }, { a: 'x,', b: ',]' }, [',', '}', ']']], zeros: [0, 0, 0.5, 10, 100, 1000000], bigish: Array.from({ length: 9 }, (_, i) => ({ i })),
}
const forms = {
  after: a => `{"elements":${JSON.stringify(a)},"total":2}`, before: a => `{"total":[9],"elements":${JSON.stringify(a)}}`, compact: a => JSON.stringify({ elements: a }), pretty: a => JSON.stringify({ elements: a }, null, 2), spaced: a => ` {"elements" : ${JSON.stringify(a).replaceAll(',', ' , ')} }\n`,
}
export default {
  id: 'C19',
  block: 16,
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: '30 arrays in 5 textual forms, every cut into up to 3 deltas (compact form of the short ones, up to 2 otherwise), every delta length 1-9, every one of the 2^n cuts of a 15-character document, 5 protocol embeddings; slow readers and message-by-message arrival within 1 deviation; failures mid-stream at every position',
    thorough: 'every cut into up to 4 deltas (short documents) or 3; every one of the 2^n cuts of a 19-character document; 2 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const list of Object.keys(LISTS)) for (const form of Object.keys(forms)) {
      const t = forms[form](LISTS[list])
      yield { cuts: [], form, list }
      for (let k = 1; k < 10; k++) yield { cuts: every(t, k), form, list }
      for (const cuts of cutSets(t.length, form === 'compact' && t.length < (T ? 60 : 50) ? T ? 3 : 2 : T && t.length < 90 ? 2 : 1, 1)) yield { cuts, form, list }
      for (const how of ['role', 'finish', 'noise', 'tool']) for (const k of [1, 3, 7, 1000]) yield { cuts: every(t, k), form, how, list }
    }
    const doc = T ? '{"elements":[1,{}]}' : '{"elements":[[],2]}'
    const tail = doc.slice(T ? 0 : 4)
    for (const mask of product(Array.from({ length: tail.length - 1 }, () => [0, 1]))) yield { cuts: [...(T ? [] : [4]), ...mask.flatMap((b, i) => b ? [i + 1 + (T ? 0 : 4)] : [])].filter(c => c < doc.length), doc }
    for (const list of ['empty', 'objs', 'nums', 'strs', 'mixed']) for (const k of [1, 4, 1000]) { yield { cuts: every(forms.compact(LISTS[list]), k), dev: 1, form: 'compact', list, slow: true }; if (k > 1) yield { cuts: every(forms.compact(LISTS[list]), k), dev: T ? 2 : 1, form: 'compact', list, perMessage: true, slow: true } }
    // an upstream failure fails the element stream, after whole elements only
    for (const list of ['objs', 'nums', 'strs']) { const t = forms.compact(LISTS[list]); for (let at = 1; at <= t.length; at++) yield { broken: at, cuts: every(t.slice(0, at), 3), form: 'compact', list } }
  },
  async execute(env, s) {
    const text = s.doc ?? forms[s.form](LISTS[s.list])
    const want = JSON.parse(text).elements
    const pieces = cutsToPieces(s.broken ? text.slice(0, s.broken) : text, s.cuts)
    let body = bodyOf(pieces, s.how)
    if (s.broken) body = body.replace(/data: [^\n]*finish_reason[^]*$/, 'data: {"error":{"message":"gone"}}\n\n')
    const h = startObject(env, 'array', s.how === 'tool' ? [TOOL_BODY, body] : [body], { perMessage: s.perMessage, slow: s.slow })
    await env.run()
    env.check(h.call.ok, `the call fails: ${canon(h.call.error)}`)
    const got = h.items.items
    if (s.broken) {
      env.check(h.items.failed, 'the element stream does not fail although the server reported an error')
      env.check(got.length <= want.length && got.every((x, i) => canon(x) === canon(want[i])), `elements before the failure should be among ${canon(want)}, were ${canon(got)}`)
      return canon(got)
    }
    env.check(!h.items.failed, `the element stream fails with ${canon(h.items.error)}`)
    env.check(h.items.done, 'the element stream never ends')
    env.expect(got, want, `elements of ${text} cut as ${JSON.stringify(pieces)}`)
    env.expect(h.refs ?? [], want, 'elements after the end (they were modified after delivery)')
    env.expect(h.text.items.join(''), text, 'text')
    return canon(got)
  },
}
function every(t, k) { const out = []; for (let i = k; i < t.length; i += k) out.push(i); return out }
