import { chunkOf, respSse, streamChunks } from '../lib/chat.mjs'
import { schema } from '../lib/kinds.mjs'
import { certain, exact, within } from '../lib/objstream.mjs'
import { respTurn } from '../lib/resp.mjs'
import { b64 } from '../lib/streams.mjs'
import { canon } from '../lib/util.mjs'

const enc = new TextEncoder()
const sse = { 'content-type': 'text/event-stream' }
const msg = (x, eol = '\n') => `data: ${typeof x === 'string' ? x : JSON.stringify(x)}${eol}${eol}`
const USAGE = { ...chunkOf({}), choices: [], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } }
const chatMessages = chunks => chunks.map((c) => {
  const d = c.choices?.[0]?.delta ?? {}
  const text = [d.content, d.refusal].filter(x => x)
  const reasoning = [d.reasoning, d.reasoning_content].filter(x => x)
  return { full: [c], reasoning, text, wire: c }
})
const ENDS = ['e\u0301', 'e', '\u0301', 'a\u200D', '\uD83D', '\uDC68', 'x\uD83D', 'wo', 'rd ', '<', 'b\r', '\r', '\n', '.', ' ', '\ufe0f', '\ufeff', '\u0000', '```', '"', '1', '\u200D']
const TURNS = {
  chat: [
    [{ split: 3, text: 'Hello wörld', usage: [1, 2, 3] }],
    [{ reasoning: 'hmm so', split: 2, text: 'ab' }],
    [{ calls: [{ args: '{"x":"1"}', id: 'c1', name: 'a' }, { args: '{"x":"2"}', id: 'c2', name: 'a' }], split: 2, text: 'let me' }, { split: 2, text: 'done', usage: [1, 1, 2] }],
    [{ deltas: [{ refusal: 'no' }, { refusal: ' way' }] }],
    // every piece could be the beginning of a longer character, word, tag or line
    [{ deltas: ENDS.map(content => ({ content })) }], [{ deltas: ENDS.map(refusal => ({ refusal })) }], [{ deltas: ENDS.map(reasoning => ({ reasoning })) }],
    [{ deltas: [{ content: 'a' }, { content: '' }, { reasoning: 'r' }, { content: 'b' }] }],
    [{ deltas: [{ content: 'a\uD83D' }, { content: '\uDE00b' }, { reasoning_content: '' }, { reasoning_content: '\uD83D' }, { reasoning_content: '\uDE00' }, { content: ' ' }, { content: '\n' }, { content: '\uDC00' }] }],
  ],
  resp: [
    [{ items: ['msgChars', 'reasonChars', 'refusalChars'], split: 99 }],
    [{ items: ['msg'], split: 3 }], [{ items: ['reason', 'msgParts'], split: 2 }], [{ items: ['rawReason', 'refusal', 'mixed'], split: 2 }],
    [{ items: ['msg', 'callA', 'callB'], split: 2 }, { items: ['msg'], split: 2 }], [{ chatter: true, interleave: true, items: ['msgCite', 'search', 'vendor', 'msg'], split: 2 }],
  ],
}
const DOCS = { partial: ['{"a":1,"b":"xyz","c":[1,2,{"d":"e"}],"f":true}', '{"t":"long text with, {odd} chars","n":[10,20]}'], elements: ['{"elements":[{"n":1},{"n":22,"t":"a,b"},{"n":3}]}', '{"elements":["a","bb","c]"]}', '{"elements":[[1],[2,3],[]]}', '{"elements":[1,22,333,null,true,"",{},[]]}'] }
/** how many elements are complete although another one has begun */
const overtaken = (t) => {
  const i = t.indexOf('['); if (i < 0) return 0
  let depth = 0; let str = false; let n = 0; let open = false
  for (const c of t.slice(i + 1).split('')) {
    if (str) { if (c === '"') str = false; continue }
    if (c === '"') { str = true; if (depth === 0) open = true; continue }
    if ('{['.includes(c)) { if (depth === 0) open = true; depth++ }
    else if ('}]'.includes(c)) { depth--; if (depth < 0) break }
    else if (c === ',' && depth === 0) { n++; open = false }
  }
  return open ? n : Math.max(0, n - 1)
}
const cutInto = (text, how) => {
  if (how === 'message') return text.split(/(?<=\n\n|\r\n\r\n)/)
  const b = enc.encode(text); const k = how; const out = []
  for (let i = 0; i < b.length; i += k) out.push(b.slice(i, i + k))
  return out
}
const joined = new Set(['text', 'reasoning'])

export default {
  id: 'C38',
  bundle: 'core',
  bundles: ['telemetry', 'small'],
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'streamed text (plain and traced), Responses, object and element streams, streamed transcription and speech: 27 bodies (those with objects in deltas of 1, 2, 3, 8, 20 or 1000 characters), each cut per message and at every 7th, 16th and 61st byte, two line terminators, all outputs read or each one alone; at every point before the next piece of the body everything received so far must have been delivered; reasoning extraction of 9 texts cut into single characters and pairs; other actions within 1 deviation',
    thorough: 'cuts at every 3rd, 5th, 7th, 16th, 31st and 61st byte; 2 deviations',
  },
  * scenarios(tier) {
    const cuts = tier === 'thorough' ? ['message', 61, 31, 16, 7, 5, 3] : ['message', 61, 16, 7]
    const S = { elements: ['elementStream', 'textStream'], partial: ['partialObjectStream', 'textStream'], resp: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], speech: ['fullStream'], stream: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], telemetry: ['textStream', 'reasoningTextStream', 'fullStream', 'eventStream'], transcription: ['fullStream', 'textStream'] }
    for (const kind of Object.keys(S)) {
      const bodies = kind === 'stream' || kind === 'telemetry' ? TURNS.chat.length : kind === 'resp' ? TURNS.resp.length : kind in DOCS ? DOCS[kind].length : 1
      for (let body = 0; body < bodies; body++) for (const cut of cuts) for (const eol of ['\n', '\r\n']) {
        if (kind in DOCS && cut === 'message') for (const step of [1, 2, 8, 20, 1000]) yield { body, cut, dev: 0, eol, kind, step, take: S[kind] }
        yield { body, cut, dev: cut === 'message' ? undefined : 0, eol, kind, take: S[kind] }
        if (cut === 'message') for (const x of S[kind]) yield { body, cut, dev: 0, eol, kind, take: [x] }
      }
    }
    for (const text of ['plain text', '<t>r</t>x', 'a<t>r</t>b<t>s</t>c', '<t>un', 'a < b', '<<t>>x<</t>>', '</t>a', '<tt>a</tt>', 'a<t></t>b']) for (const k of [1, 2, 5]) for (const start of [false, true]) yield { k, reason: text, start }
  },
  async execute(env, s) {
    if (s.reason !== undefined) return await extraction(env, s)
    const ns = s.kind === 'telemetry' ? env.instantiate(env.factories.telemetry).telemetry : env.lib
    const turns = turnsOf(s)
    const events = []
    const bodies = turns.map(ms => ms.map(m => msg(m.wire, s.eol)).join('') + msg('[DONE]', s.eol))
    // ends of the messages in bytes
    const ends = turns.map((ms) => { let n = 0; return ms.map(m => n += enc.encode(msg(m.wire, s.eol)).length) })
    const pieces = bodies.map(b => cutInto(b, s.cut))
    const sizes = pieces.map((ps) => { let n = 0; return [0, ...ps.map(p => n += typeof p === 'string' ? enc.encode(p).length : p.length)] })
    let n = 0
    const o = {
      baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetchWith(() => ({ chunks: pieces[n++], headers: sse }), i, init), model: 'm',
      ...(s.kind === 'resp' ? { input: 'hi' } : { messages: [{ content: 'hi', role: 'user' }] }),
      ...(s.kind in DOCS ? { schema: schema(v => ({ value: v })), ...(s.kind === 'elements' ? { output: 'array' } : {}) } : {}),
      ...(s.kind === 'speech' ? { input: 'say', messages: undefined, voice: 'v' } : s.kind === 'transcription' ? { file: new Blob(['x']), messages: undefined } : { onEvent: (e) => { events.push(structuredClone(e)) }, stopWhen: ({ steps }) => steps.length >= 3, tools: ['a', 'b'].map(name => ({ execute: () => 'r', function: { name, parameters: {} }, type: 'function' })) }),
    }
    const got = {}
    const take = (r) => { for (const x of s.take) got[x] = env.collect(r[x], x, v => v instanceof Uint8Array ? [...v] : structuredClone(v)) }
    const orig = env.ctx.state.bind(env.ctx)
    let seen = 0
    env.ctx.state = (hash, enabled) => {
      for (const a of enabled) {
        const b = a.label.match(/^body#(\d+)\.(\d+|end)$/)
        if (!b || s.take.some(x => !got[x])) continue
        const [k, i] = [+b[1], b[2] === 'end' ? pieces[+b[1]].length : +b[2]]
        const here = ends[k].filter(e => e <= sizes[k][i]).length
        seen++
        arrived([...turns.slice(0, k), turns[k].slice(0, here)], k)
      }
      return orig(hash, enabled)
    }
    const arrived = (parts, k) => {
      const ms = parts.flat()
      const all = x => ms.flatMap(m => m[x] ?? [])
      for (const x of s.take) {
        const items = got[x].items
        const what = `${x} when ${parts.at(-1).length} messages of response ${k + 1} have arrived`
        if (x === 'elementStream') { const c = overtaken(all('text').join('')); env.check(items.length >= c, `${what}: ${c} elements are complete and passed, ${items.length} delivered`) }
        else if (x === 'partialObjectStream') { const c = certain(all('text').join('')); if (c !== undefined && canon(c) !== '{}') env.check(items.length > 0 && within(c, items.at(-1), exact), `${what}: ${canon(c)} has arrived, the last snapshot is ${canon(items.at(-1))}`) }
        else if (x === 'eventStream') deltas(items, ms, what)
        else if (x === 'fullStream') env.expect(s.kind === 'speech' ? items.flat() : items, s.kind === 'speech' ? all('full').flat() : all('full'), what)
        else env.expect(items.join(''), all(x === 'textStream' ? 'text' : 'reasoning').join(''), what)
      }
      if (s.kind === 'stream' || s.kind === 'telemetry' || s.kind === 'resp') deltas(events, ms, `the event callback when ${parts.at(-1).length} messages of response ${k + 1} have arrived`)
    }
    const deltas = (list, ms, what) => {
      for (const t of ['text', 'reasoning']) env.expect(list.filter(e => e.type === `${t}.delta`).map(e => e.delta).join(''), ms.flatMap(m => m[t] ?? []).join(''), `${t} deltas in ${what}`)
      const started = ms.filter(m => m.starts).length
      if (started) env.expect(list.filter(e => e.type === 'tool-call.start').length, ms.reduce((a, m) => a + (m.starts ?? 0), 0), `tool calls begun in ${what}`)
    }
    if (s.kind === 'speech') ns.streamSpeech(o).then(take, e => env.fail(`the call fails: ${e}`))
    else if (s.kind === 'transcription') take(ns.streamTranscription(o))
    else if (s.kind in DOCS) ns.streamObject(o).then(take, e => env.fail(`the call fails: ${e}`))
    else take(s.kind === 'resp' ? ns.responses(o) : ns.streamText(o))
    await env.run()
    env.check(seen > 0, 'the call never waited for its response')
    for (const x of s.take) env.check(got[x]?.done, `${x} does not end normally: ${canon(got[x]?.error)}`)
    arrived(turns, turns.length - 1)
    return canon(s.take.map(x => got[x].items.length))
  },
}

function turnsOf(s) {
  if (s.kind === 'stream' || s.kind === 'telemetry') return TURNS.chat[s.body].map(t => chatMessages(streamChunks(t)).map(m => ({ ...m, full: [JSON.parse(JSON.stringify(m.wire))], starts: m.wire.choices?.[0]?.delta?.tool_calls?.filter(c => c.id !== undefined).length || undefined })))
  if (s.kind === 'resp') return TURNS.resp[s.body].map((t, n) => { const r = respTurn(t, n); return [...r.body, [r.end, [], {}]].map(([e, , x]) => ({ full: [e], reasoning: x?.reasoning ? [x.reasoning] : [], starts: e.type === 'response.output_item.added' && e.item.type === 'function_call' ? 1 : undefined, text: x?.text ? [x.text] : [], wire: e })) })
  if (s.kind === 'speech') return [[[1, 2], [3], [250, 251, 252], [0]].map(a => ({ full: [a], wire: { audio: b64(a), type: 'speech.audio.delta' } })).concat({ full: [], wire: { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 1, total_tokens: 2 } } })]
  if (s.kind === 'transcription') return [['Grüß ', 'dich', ', 日本', '!', ...ENDS].map(delta => ({ full: [{ delta, type: 'transcript.text.delta' }], text: [delta], wire: { delta, type: 'transcript.text.delta' } })).concat({ full: [], text: [], wire: { text: 'x', type: 'transcript.text.done' } })]
  const doc = DOCS[s.kind][s.body]; const ps = []
  const step = s.step ?? 3
  for (let i = 0; i < doc.length; i += step) ps.push(doc.slice(i, i + step))
  return [[...ps.map(p => chunkOf({ content: p })), chunkOf({}, { finish_reason: 'stop' }), USAGE].map(c => ({ text: [c.choices?.[0]?.delta?.content].filter(x => x), wire: c }))]
}

async function extraction(env, s) {
  const ps = []; for (let i = 0; i < s.reason.length; i += s.k) ps.push(s.reason.slice(i, i + s.k))
  const input = env.bodyStream(ps, { name: 'body#0' })
  const r = env.lib.extractReasoningStream ? env.lib.extractReasoningStream(input, { startWithReasoning: s.start, tagName: 't' }) : env.instantiate(env.factories.small).extractReasoningStream(input, { startWithReasoning: s.start, tagName: 't' })
  const a = env.collect(r.reasoningStream, 'reasoning'); const b = env.collect(r.textStream, 'text')
  const orig = env.ctx.state.bind(env.ctx)
  env.ctx.state = (hash, enabled) => {
    for (const x of enabled) {
      const m = x.label.match(/^body#0\.(\d+|end)$/)
      if (!m) continue
      const t = ps.slice(0, m[1] === 'end' ? ps.length : +m[1]).join('')
      // characters that can no longer belong to a tag: outside tags, without the longest suffix that may begin one
      let inside = s.start; let rest = t; const n = [0, 0]
      for (;;) {
        const tag = inside ? '</t>' : '<t>'
        const i = rest.indexOf(tag)
        if (i >= 0) { n[inside ? 0 : 1] += i; rest = rest.slice(i + tag.length); inside = !inside; continue }
        let k = Math.min(tag.length - 1, rest.length)
        while (k > 0 && !tag.startsWith(rest.slice(-k))) k--
        n[inside ? 0 : 1] += rest.length - k
        break
      }
      for (const [w, rec, k] of [['reasoning', a, n[0]], ['text', b, n[1]]]) env.check(rec.items.join('').length >= k, `when ${canon(t)} has arrived, ${k} characters of ${w} are certain, but ${canon(rec.items.join(''))} was delivered`)
    }
    return orig(hash, enabled)
  }
  await env.run()
  env.check(a.done && b.done, 'the streams do not end')
  return `${a.items.join('')}|${b.items.join('')}`
}
