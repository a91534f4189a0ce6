import { reference } from '../lib/env.mjs'
import { BODIES, startStreaming } from '../lib/streams.mjs'
import { canon } from '../lib/util.mjs'

const enc = new TextEncoder()
const EOLS = { cr: '\r', crlf: '\r\n', lf: '\n' }
/** positions in the byte stream where a cut is delicate */
const hot = (b) => {
  const out = new Set()
  for (let i = 1; i < b.length; i++) {
    if (b[i] >= 0x80 || b[i - 1] >= 0x80 || b[i] === 10 || b[i - 1] === 10 || b[i] === 13 || b[i - 1] === 13 || b[i - 1] === 58) out.add(i)
  }
  return [...out]
}
const bodyOf = (s) => { let t = BODIES[s.api][s.body][s.which]; if (s.bom) t = `\uFEFF${t}`; return enc.encode(t.replaceAll('\n', EOLS[s.eol])) }

export default {
  id: 'C09',
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: 'every single cut of every body (on 4 APIs, messages of one and of several data lines; LF, CRLF and CR line ends), for LF and CRLF every pair of cuts at delicate positions within 12 bytes of each other, every fixed chunk size 1-16, an empty chunk at every delicate position',
    thorough: 'every pair of cuts at delicate positions, every pair of cuts within 24 bytes, bodies arriving chunk by chunk under the scheduler',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    for (const api of Object.keys(BODIES)) {
      for (const body of Object.keys(BODIES[api])) {
        for (let which = 0; which < BODIES[api][body].length; which++) {
          for (const eol of ['lf', 'crlf', 'cr']) {
            const s = { api, body, eol, which }
            // a body that ends with a lone CR leaves its last message pending: only bodies closed by [DONE] are sent that way
            if (eol === 'cr' && !BODIES[api][body][which].trimEnd().endsWith('[DONE]')) continue
            const b = bodyOf(s); const hs = hot(b)
            for (let k = 1; k <= 16; k++) yield { ...s, step: k }
            yield { ...s, bom: true, step: 1 }
            yield { ...s, slow: true, step: 7 }
            if (which) continue
            for (let i = 1; i < b.length; i++) yield { ...s, cuts: [i] }
            if (eol === 'cr' && !T) continue
            for (const i of hs) yield { ...s, cuts: [i, i] }
            const seen = new Set()
            for (const i of hs) for (const j of hs) if (j > i && (T ? true : j - i <= 12)) { seen.add(`${i},${j}`); if (T && j - i > 200) continue; yield { ...s, cuts: [i, j] } }
            if (T) for (let i = 1; i < b.length; i++) for (let j = i + 1; j < b.length && j <= i + 24; j++) if (!seen.has(`${i},${j}`)) yield { ...s, cuts: [i, j] }
            if (T) for (const i of hs) yield { ...s, cuts: [i], slow: true }
          }
        }
      }
    }
  },
  async execute(env, s) {
    const b = bodyOf(s)
    const chunks = []
    if (s.step) for (let i = 0; i < b.length; i += s.step) chunks.push(b.slice(i, i + s.step))
    else { let p = 0; for (const c of s.cuts) { chunks.push(b.slice(p, c)); p = c } chunks.push(b.slice(p)) }
    const plain = BODIES[s.api][s.body].map(t => [enc.encode(t)])
    const cut = [...plain]; cut[s.which] = chunks
    const a = await reference(env, `${s.api}:${s.body}`, async (e) => {
      const ref = startStreaming(e, s.api, plain, {})
      await e.run()
      return ref.summary()
    })
    const got = startStreaming(env, s.api, cut, { auto: !s.slow })
    await env.run()
    const c = got.summary()
    for (const k of Object.keys(a)) env.check(canon(a[k]) === canon(c[k]), `${k} depends on how the body is cut (${s.eol} ${canon(s.cuts ?? s.step)}): whole ${canon(a[k])}, cut ${canon(c[k])}`)
    return canon(c)
  },
}
