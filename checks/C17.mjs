import { canon, cutSets, cutsToPieces, sequences } from '../lib/util.mjs'

// one SSE message per entry: the data text
const DATA = {
  arr: '[1,{"error":1}]', bool: 'true', done: '[DONE]', empty: '', err: '{"error":{"message":"bäd 😀"}}', err2: '{"choices":[],"error":"x"}', errstr: '{"text":"error"}', inner: '{"a":{"error":1}}', nul: 'null',
  bad: '{"a":', bad2: 'hello', bad3: '[DONE] ', bad4: '{"a":1}{"a":2}', custom: '<END>', lower: '[done]', multi: '{"a":\n"x"}', num: '0', obj: '{"a":"é😀\\n","b":[]}', quoted: '"[DONE]"', space: ' ', str: '"x"', strempty: '""', seps: '{"a":"1\u20282\u20293\ufeff4\u00855\u00006\u000b7\u000c8\u001b9\u00ad\u200b"}', sepsRaw: '{"a":"1\u20282\u20293\ufeff4\u00855\u007f6\u00a0\u00ad\u200b\u2060"}', sepsOnly: '\u2028', ws: ' \t{ "a" : 1 } ', false: 'false', proto: '{"__proto__":{"error":1}}', huge: `{"t":"${'é'.repeat(70000)}"}`, big: `{"t":"${'y'.repeat(500)}"}`,
}
const OPTIONS = {
  custom: { doneMarker: '<END>' },
  isErr: { isErrorResponse: p => p === 'x' || (Array.isArray(p) && p[0] === 1) },
  none: undefined,
  nullErr: { isErrorResponse: p => p == null, parse: d => d === 'hello' ? undefined : JSON.parse(d) },
  never: { isErrorResponse: () => false },
  parse: { parse: (d) => { if (d === 'hello') throw new RangeError('no'); return { parsed: d } } },
  parseErr: { parse: d => d.startsWith('{"error') ? { error: 1 } : [d] },
  all: { doneMarker: 'hello', isErrorResponse: p => p.parsed.length === 1, parse: d => ({ parsed: d }) },
}
const CORE = ['obj', 'num', 'empty', 'done', 'err', 'bad']

const model = (datas, opt = {}) => {
  const values = []
  for (const d of datas) {
    if (d === '' || d === (opt.doneMarker ?? '[DONE]')) continue
    let v
    try { v = (opt.parse ?? JSON.parse)(d) } catch (e) { return { error: 'json_parse_error', raw: d, values, cause: e } }
    const bad = opt.isErrorResponse ? opt.isErrorResponse(v) : v !== null && typeof v === 'object' && 'error' in v
    if (bad) return { error: 'remote_api_error', raw: d, values }
    if (v != null) values.push(v)
  }
  return { values }
}

// what else a message may carry does not change what its data means
const EVENTS = [undefined, '', 'message', 'ping', 'error', 'done', 'end', 'close', 'heartbeat', 'comment', 'response.created', 'thread.run.completed', '[DONE]', '__proto__', 'ü']

export default {
  id: 'C17',
  bundle: 'small',
  block: 32,
  dev: { quick: 2, thorough: 4 },
  bounds: {
    quick: 'all message sequences up to 4 over 6 message kinds and up to 2 over 28 kinds x 7 option sets, up to 2 over 8 kinds (one of 70000 characters) with 15 event names and 4 event ids, written one by one, all at once or through the event-stream parser; message arrival against reader interleaved within 2 deviations; every 1-2 cuts of the encoded stream',
    thorough: 'sequences up to 6 over 6 kinds and up to 3 over 28 kinds; 4 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    const ks = Object.keys(DATA).filter(k => k !== 'huge')
    for (const opt of Object.keys(OPTIONS)) {
      for (const seq of sequences(ks, 2)) for (const mode of ['each', 'burst']) yield { dev: 0, mode, opt, seq }
      for (const seq of sequences(CORE, T ? 6 : opt === 'none' ? 4 : 3, 3)) for (const mode of ['each', 'burst']) yield { dev: 0, mode, opt, seq }
      if (T) for (const seq of sequences(ks, 3, 3)) yield { dev: 0, mode: 'each', opt, seq }
    }
    for (const event of EVENTS) for (const opt of ['none', 'custom', 'never']) for (const seq of sequences([...CORE, 'huge', 'custom'], 2, 1)) for (const mode of ['each', 'sse']) yield { dev: 0, event: event ?? null, mode, opt, seq }
    for (const id of ['same', '0', '', '[DONE]']) for (const opt of ['none', 'custom', 'never']) for (const seq of sequences(CORE, 3, 1)) for (const mode of ['each', 'sse']) yield { dev: 0, id, mode, opt, seq }
    // the reader takes values at its own pace
    for (const seq of sequences(CORE, T ? 4 : 3, 1)) yield { mode: 'paced', opt: 'none', seq }
    // end to end with the event-stream framing
    for (const opt of ['none', 'custom']) for (const seq of sequences(ks.filter(k => k !== 'bad3' && k !== 'space'), 2, 1)) yield { dev: 0, mode: 'sse', opt, seq }
    const doc = ['obj', 'empty', 'multi', 'done', 'err']
    const len = Buffer.byteLength(frame(doc))
    for (const cuts of cutSets(len, T ? 2 : 1, 1)) yield { cuts, dev: 0, mode: 'sse', opt: 'none', seq: doc }
    for (const cuts of cutSets(len, 2, 2)) if ((cuts[0] + cuts[1]) % 3 === 0 || T) yield { cuts, dev: 0, mode: 'sse', opt: 'never', seq: doc }
  },
  async execute(env, s) {
    const { EventSourceParserStream, JsonMessageTransformStream, parseJsonSSEMessage } = env.lib
    const datas = s.seq.map(k => DATA[k])
    const opt = OPTIONS[s.opt]
    const m = model(datas, opt ?? {})
    // the message decoder on its own
    for (const [i, d] of datas.entries()) {
      const one = model([d], opt ?? {})
      let v; let e; let threw = false
      try { v = parseJsonSSEMessage({ data: d, event: eventOf(s, i), id: s.id }, opt) } catch (x) { e = x; threw = true }
      env.check(threw === !!one.error, `${JSON.stringify(d)} ${threw ? 'is refused' : 'is accepted'}: ${canon(threw ? e : v)}`)
      if (!threw) env.expect(v ?? null, one.values[0] ?? null, `the value of ${JSON.stringify(d)}`)
    }
    const t = opt === undefined ? new JsonMessageTransformStream() : new JsonMessageTransformStream(opt)
    const msgs = datas.map((data, i) => ({ data, event: eventOf(s, i), id: s.id ?? (i % 3 ? String(i) : undefined) }))
    let src
    if (s.mode === 'sse') src = env.bodyStream(cutsToPieces(Buffer.from(frame(s.seq, s)).toString('latin1'), s.cuts ?? []).map(p => Uint8Array.from(p, c => c.charCodeAt(0))), { auto: true, name: 'src' }).pipeThrough(new TextDecoderStream()).pipeThrough(new EventSourceParserStream())
    else src = env.bodyStream(msgs, { auto: s.mode === 'burst', name: 'src' })
    const items = []; let end
    if (s.mode === 'paced') {
      const reader = src.pipeThrough(t).getReader()
      const take = () => env.action('read', () => { reader.read().then(({ done, value }) => { if (done) { end = 'done'; return } items.push(structuredClone(value)); env.log('item', value); take() }, (e) => { end = e }) })
      take()
    }
    else {
      const rec = env.collect(src.pipeThrough(t), 'out', x => structuredClone(x))
      await env.run()
      items.push(...rec.items); end = rec.failed ? rec.error : rec.done ? 'done' : undefined
    }
    if (s.mode === 'paced') await env.run()
    env.check(end !== undefined, 'the decoded stream neither ends nor fails')
    env.expect(items, m.values, 'decoded values')
    if (!m.error) env.check(end === 'done', `fails with ${canon(end)}`)
    else {
      env.check(end !== 'done', `ends normally although ${JSON.stringify(m.raw)} ${m.error === 'json_parse_error' ? 'is malformed' : 'is an error payload'}`)
      env.check(end instanceof Error && end.code === m.error, `expected a ${m.error} for ${JSON.stringify(m.raw)}, got ${canon(end)}`)
      env.check((m.error === 'json_parse_error' ? end.text : end.responseBody) === m.raw, `the error should carry ${JSON.stringify(m.raw)}, carries ${canon(end.text ?? end.responseBody)}`)
      if (m.error === 'json_parse_error') env.check(end.cause !== undefined && canon(end.cause) === canon(m.cause), `the error should carry its cause ${canon(m.cause)}, carries ${canon(end.cause)}`)
    }
    return canon([items, end])
  },
}
const eventOf = (s, i) => 'event' in s ? s.event ?? undefined : i % 2 ? 'message' : undefined
function frame(seq, s = {}) { return seq.map(k => (s.event ? `event: ${s.event}\n` : '') + (s.id ? `id: ${s.id}\n` : '') + DATA[k].split('\n').map(l => `data: ${l}\n`).join('') + '\n').join('') }
