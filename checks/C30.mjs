import { canon, permutations, sequences, subsets } from '../lib/util.mjs'

const b64 = a => Buffer.from(a).toString('base64')
const ascii = t => [...t].map(c => c.charCodeAt(0))
const box = n => [0, 0, 0, n, ...ascii('ftypavif'), 0, 0, 0, 0, ...ascii('avifmif1miafMA1B'), 255, 1, 2]
const riff = (a, b) => [...ascii('RIFF'), a, b, 0, 0, ...ascii('WEBPVP8 '), 9, 8, 7]
/** inline images by what they are; the media types their content justifies */
const INLINE = {
  near: [[...Buffer.from('uklgRAAAAAAA', 'base64')], ['image/png']], near2: [[...Buffer.from('r0LGodAAAAAA', 'base64')], ['image/png']], near3: [[...Buffer.from('/9J/AAAAAAAA', 'base64')], ['image/png']], near4: [[...Buffer.from('aAAAAHGZ0eXBhdmlm', 'base64')], ['image/png']], near5: [[...Buffer.from('AA/9j/4AAAAA', 'base64')], ['image/png']],
  avif: [box(0x20), ['image/avif']],
  avif28: [box(0x1C), ['image/avif']],
  empty: [[], ['image/png']],
  exif: [[0xFF, 0xD8, 0xFF, 0xE1, 0, 16, ...ascii('Exif')], ['image/jpg', 'image/jpeg']],
  gif87: [[...ascii('GIF87a'), 1, 0, 1, 0], ['image/gif']],
  gif89: [[...ascii('GIF89a'), 200, 0, 1, 0, 4], ['image/gif']],
  jpeg: [[0xFF, 0xD8, 0xFF, 0xE0, 0, 16, ...ascii('JFIF')], ['image/jpg', 'image/jpeg']],
  jpegRaw: [[0xFF, 0xD8, 0xFF, 0xDB, 3], ['image/jpg', 'image/jpeg']],
  png: [[0x89, ...ascii('PNG'), 13, 10, 26, 10, 0, 0, 0, 13], ['image/png']],
  pngShort: [[0x89, ...ascii('PNG'), 13, 10, 26, 10], ['image/png']],
  unknown: [[1, 2, 3, 4, 5], ['image/png']],
  webp: [riff(0x24, 1), ['image/webp']],
  webpBig: [riff(0xFF, 0xFF), ['image/webp']],
  webpSmall: [riff(0, 0), ['image/webp']],
}
const TYPES = { avif: 'image/avif', bare: undefined, gif: 'image/gif', jpeg: 'image/jpeg', param: 'image/png; charset=binary', svg: 'image/svg+xml', upper: 'IMAGE/WEBP', vendor: 'image/vnd.x-y.z' }
const BYTES = { all: Array.from({ length: 256 }, (_, i) => i), empty: [], one: [200], two: [1, 2] }
const ITEMS = {
  inline: () => ({ b64_json: b64(INLINE.png[0]) }), inline2: () => ({ b64_json: b64(INLINE.gif89[0]), revised_prompt: 'r' }), inlineNull: () => ({ b64_json: b64(INLINE.jpeg[0]), url: null }),
  url: i => ({ url: `http://img/${i}` }), urlNull: i => ({ b64_json: null, url: `http://img/${i}`, revised_prompt: 'x' }),
  both: i => ({ b64_json: b64([...INLINE.png[0], ...Array.from({ length: 300 }, (_, k) => (k * 7 + i) % 256)]), url: `http://img/${i}` }), bothShort: i => ({ b64_json: b64(INLINE.gif89[0]), url: `http://img/${i}` }), long: i => ({ b64_json: b64([...INLINE.jpeg[0], ...Array.from({ length: 9000 }, (_, k) => (k * 5 + i) % 256)]), revised_prompt: 'l' }),
  none: () => ({}), nulls: () => ({ b64_json: null, url: null }), odd: () => ({ b64_json: 5, revised_prompt: 'p' }),
}
/** the URL of the nth download, and what its request is recognised by */
const SPELL = { fragment: i => `http://img/p#${i}`, host: i => `http://img${i}/p`, path: i => `http://img/p/${i}.png`, port: i => `http://img:${8000 + i}/p`, query: i => `http://img/p?sig=${i}&x=1`, same: () => 'http://img/p' }
const GOOD = ['both', 'bothShort', 'long', 'inline', 'inline2', 'inlineNull', 'url', 'urlNull']

export default {
  id: 'C30',
  dev: { quick: 2, thorough: 4 },
  bounds: {
    quick: 'all item lists of up to 3 over 8 valid and 3 invalid item shapes; all 19 inline contents and 8 x 4 declared types x contents of downloads; every completion order of up to 4 downloads, 6 ways for their URLs to differ (or not); every subset of 3 failing downloads x 5 failures; lists of up to 40 items and any number asked for; missing and non-array lists; schedules within 2 deviations',
    thorough: 'item lists of up to 4; every completion order of up to 5 downloads; 4 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const seq of sequences(Object.keys(ITEMS), T ? 4 : 3, 0)) yield { items: seq, ...(seq.filter(k => k.startsWith('url')).length > 1 ? {} : { dev: 0 }) }
    for (const k of Object.keys(INLINE)) { yield { dev: 0, inline: [k], items: ['inline'] }; for (const j of Object.keys(INLINE)) yield { dev: 0, inline: [k, j], items: ['inline', 'inline'] } }
    for (const t of Object.keys(TYPES)) for (const c of Object.keys(BYTES)) yield { content: c, dev: 0, items: ['url'], type: t }
    for (let n = 2; n <= (T ? 5 : 4); n++) for (const order of permutations(Array.from({ length: n }, (_, i) => i))) { yield { dev: 0, items: order.map(() => 'url'), order }; yield { dev: 0, items: ['inline', ...order.map(() => 'url'), 'inline2'], order } }
    for (const bad of subsets([0, 1, 2])) for (const how of ['404', '500', 'reject', 'body', 'empty503']) if (bad.length) yield { bad, how, items: ['url', 'url', 'url'] }
    for (const bad of [0, 1]) yield { bad: [bad], how: 'reject', items: ['url', 'none'] }
    for (const list of ['missing', 'null', 'object', 'string']) yield { dev: 0, items: [], list }
    // URLs that are the same or differ in only a part: each item is downloaded for itself
    for (const v of Object.keys(SPELL)) for (const n of [2, 3]) for (const order of permutations(Array.from({ length: n }, (_, i) => i))) for (const sep of [false, true]) yield { dev: 0, items: order.flatMap(i => sep && i ? ['inline', 'url'] : ['url']), order, spell: v }
    // long lists, whatever number was asked for
    for (const count of [11, 17, 40]) for (const n of [undefined, 1, 2, 10, count]) for (const kinds of [['inline', 'inline2'], ['url', 'inline'], ['url']]) yield { dev: 0, items: Array.from({ length: count }, (_, i) => kinds[i % kinds.length]), n }
    for (const n of [1, 2, 10]) for (const seq of sequences(['inline', 'url'], 3)) yield { dev: 0, items: seq, n }
    for (const own of [false, true]) yield { dev: 0, items: ['url', 'inline', 'url'], own }
  },
  async execute(env, s) {
    let nth = 0
    const data = s.items.map((k, i) => { const x = ITEMS[k](i); if (s.spell && k === 'url') x.url = SPELL[s.spell](s.items.slice(0, i).filter(y => y === 'url').length); if (s.inline && k === 'inline') x.b64_json = b64(INLINE[s.inline[nth++]][0]); return x })
    // which item a download belongs to
    const itemOf = url => s.spell ? urls[urls.findIndex((_, k) => SPELL[s.spell](k) === url)] : Number(url.split('/').pop())
    const content = i => s.spell === 'same' ? BYTES.all : s.content ? BYTES[s.content] : [...BYTES.two, i]
    const type = i => s.type ? TYPES[s.type] : s.spell === 'same' ? 'image/webp' : ['image/gif', 'image/jpeg', 'image/webp', 'image/avif', 'image/png'][i % 5]
    const thrown = i => new Error(`refused ${i}`)
    const pending = new Map()
    const urls = s.items.flatMap((k, i) => k.startsWith('url') ? [i] : [])
    const rank = i => urls.indexOf(i)
    const answer = (rec) => {
      if (rec.url.includes('/images/generations')) return { auto: true, json: { created: 1, data: s.list ? { missing: undefined, null: null, object: {}, string: 'x' }[s.list] : data } }
      const i = itemOf(rec.url)
      if (s.bad?.includes(i)) {
        if (s.how === 'reject') throw thrown(i)
        if (s.how === 'body') return { auto: true, chunks: [new Uint8Array([1])], error: thrown(i), headers: { 'content-type': 'image/png' } }
        if (s.how === 'empty503') return { nullBody: true, status: 503 }
        return { auto: true, status: Number(s.how), text: 'nope' }
      }
      return { auto: true, bytes: new Uint8Array(content(i)), headers: type(i) === undefined ? {} : { 'content-type': type(i) } }
    }
    const ask = (input, init) => {
      const url = String(input instanceof URL ? input.href : input?.url ?? input)
      if (!s.order || s.spell === 'same' || url.includes('/images/generations')) return env.fetchWith(answer, input, init)
      // downloads finish exactly in the given order
      return new Promise((resolve, reject) => pending.set(rank(itemOf(url)), () => env.fetchWith(answer, input, init).then(resolve, reject)))
    }
    if (s.own !== false) env.server = () => env.fail('a request bypasses the given fetch')
    else env.server = answer
    const o = { baseURL: 'http://srv/v1/', model: 'm', ...(s.n === undefined ? {} : { n: s.n }), prompt: 'p', ...(s.own === false ? {} : { fetch: ask }) }
    const call = env.watch(env.lib.generateImage(o), 'image')
    if (s.order && s.spell !== 'same') {
      await env.run()
      env.check(pending.size === s.order.length, `${pending.size} of ${s.order.length} downloads were started`)
      for (const k of s.order) { pending.get(k)(); await env.run() }
    }
    await env.run()
    env.check(call.settled, 'the call never settles')
    const invalid = s.items.some(k => !GOOD.includes(k))
    if (s.list) { env.check(!call.ok && call.error instanceof Error, `a response without a list of images ${call.ok ? `resolves to ${canon(call.value)}` : `fails with ${canon(call.error)}`}`); return 'nolist' }
    if (invalid || s.bad) {
      env.check(!call.ok, `the call succeeds with ${canon(call.value)} although ${s.bad ? 'a download failed' : 'an item has neither data nor URL'}`)
      env.check(call.error instanceof Error, `the call fails with ${canon(call.error)}`)
      if (s.bad && !invalid && s.how === 'reject') env.check(s.bad.some(i => call.error.message === `refused ${i}`), `the failure ${call.error} is not the download's`)
      if (s.bad && !invalid && /\d/.test(s.how)) env.check(call.error.name === 'APICallError' && call.error.statusCode === Number(s.how.replace(/\D/g, '')), `the failure ${call.error} does not report the download's status`)
      return 'rejected'
    }
    env.check(call.ok, `the call fails with ${canon(call.error)}`)
    const { image, images } = call.value
    env.check(Array.isArray(images) && images.length === data.length, `${images?.length} images for ${data.length} items`)
    nth = 0
    data.forEach((item, i) => {
      const inline = typeof item.b64_json === 'string'
      const want = inline ? (s.inline ? INLINE[s.inline[nth++]][1] : { both: ['image/png'], bothShort: ['image/gif'], inline: ['image/png'], long: ['image/jpg', 'image/jpeg'], inline2: ['image/gif'], inlineNull: ['image/jpg', 'image/jpeg'] }[s.items[i]]) : [type(i) === undefined ? 'application/octet-stream' : type(i).toLowerCase().split(';')[0]]
      const bytes = inline ? item.b64_json : b64(content(i))
      const got = images[i]
      env.check(want.includes(got.mimeType), `image ${i} is said to be ${got.mimeType} instead of ${want.join(' or ')}`)
      const m = /^data:([^;,]*)([^,]*);base64,(.*)$/.exec(got.base64)
      env.check(m, `image ${i} is not a data URL: ${String(got.base64).slice(0, 60)}`)
      env.check(want.includes(m[1]), `the data URL of image ${i} says ${m[1]} instead of ${want.join(' or ')}`)
      env.check(m[3] === bytes, `the data of image ${i} is ${m[3].slice(0, 40)} instead of ${bytes.slice(0, 40)}`)
    })
    env.expect(image, images[0], 'the single image')
    return canon(images.map(x => x.mimeType))
  },
}
