// The four streaming APIs behind one driver: start a call against given body chunks and summarise everything it delivers.
import { newObs, startCall, streamChunks, sseText, respEvents, respSse } from './chat.mjs'
import { canon } from './util.mjs'

export const b64 = bytes => Buffer.from(bytes).toString('base64')
const errOf = e => e instanceof Error ? [e.name, e.message] : e

/** bodies: array of (array of chunks) per request; extra answers default to a plain final turn */
export const startStreaming = (env, api, bodies, { tag = '', auto = true, error, hasError = false, opts = {}, scenario = {}, lib = env.lib, noConsume = false, signal } = {}) => {
  let n = 0
  const answer = () => { const b = bodies[n++]; return { auto, chunks: b ?? [], headers: { 'content-type': 'text/event-stream' }, ...(hasError && n === bodies.length ? { error } : {}) } }
  if (api === 'stream' || api === 'resp') {
    const obs = newObs()
    const h = startCall(env, { messages: [{ content: 'hi', role: 'user' }], stop: { k: 'never' }, tools: [{ mode: 'sync', name: 'a' }, { kind: 'obj', mode: 'sync', name: 'b' }], ...scenario }, api, { lib, noConsume, obs, server: answer, signal, tag, ...opts })
    return { ...h, api, summary: () => ({
      events: [h.eventStream.items, h.eventStream.failed ? errOf(h.eventStream.error) : h.eventStream.done],
      finish: obs.finish.map(x => x ?? 'none'),
      full: [h.full.items, h.full.failed ? errOf(h.full.error) : h.full.done],
      onEvent: obs.events,
      reasoning: [h.reasoning.items, h.reasoning.failed ? errOf(h.reasoning.error) : h.reasoning.done],
      requests: obs.requests.map(r => r.json).map(j => ({ ...j, input: j.input?.map(({ id, ...x }) => x) })),
      steps: settled(h.steps),
      text: [h.text.items, h.text.failed ? errOf(h.text.error) : h.text.done],
      totalUsage: settled(h.totalUsage),
      transcript: (() => { const s = settled(h.transcript); return Array.isArray(s.value) ? { ...s, value: s.value.map(({ id, ...x }) => x) } : s })(),
      usage: settled(h.usage),
    }) }
  }
  const fetch = (i, init) => env.fetchWith(answer, i, init)
  const base = { baseURL: `http://srv${tag}/v1/`, fetch, model: 'm', ...(signal ? { abortSignal: signal } : {}), ...opts }
  if (api === 'speech') {
    const h = { api, call: env.watch(lib.streamSpeech({ ...base, input: 'say', voice: 'v' }), `${tag}speech`) }
    h.call.promise.then((r) => { if (!noConsume) h.full = env.collect(r.fullStream, `${tag}audio`, x => [...x]); h.usage = env.watch(r.usage, `${tag}usage`) }, () => {})
    h.summary = () => ({ audio: h.full ? [h.full.items, h.full.failed ? errOf(h.full.error) : h.full.done] : null, call: h.call.settled ? (h.call.ok ? 'ok' : errOf(h.call.error)) : 'pending', usage: h.usage ? settled(h.usage) : null })
    return h
  }
  if (api === 'transcription') {
    const r = lib.streamTranscription({ ...base, file: new Blob(['data']) })
    const h = { api, result: r }
    if (!noConsume) { h.full = env.collect(r.fullStream, `${tag}full`); h.textStream = env.collect(r.textStream, `${tag}text`) }
    h.text = env.watch(r.text, `${tag}fulltext`)
    h.summary = () => ({ full: [h.full.items, h.full.failed ? errOf(h.full.error) : h.full.done], promise: settled(h.text), text: [h.textStream.items, h.textStream.failed ? errOf(h.textStream.error) : h.textStream.done] })
    return h
  }
  throw new Error(api)
}
export const settled = r => r.settled ? (r.ok ? { ok: true, value: r.value } : { error: errOf(r.error), ok: false }) : 'pending'

/** every message spread over several data lines */
const spread = text => text.replace(/^data: (\{.*)$/gm, (_, j) => JSON.stringify(JSON.parse(j), null, 1).split('\n').map(l => `data: ${l}`).join('\n'))

export const BODIES = {
  stream: {
    text: [sseText(streamChunks({ reasoning: 'thé 🤔', split: 2, text: 'Héllo, wörld 日本 😀!', usage: [1, 2, 3] }))],
    tools: [sseText(streamChunks({ calls: [{ args: '{"x":"é😀"}', id: 'c1', name: 'a' }, { args: '{"y":"2"}', id: 'c2', name: 'b' }], split: 2, text: 'ü', usage: [1, 2, 3] })), sseText(streamChunks({ text: 'done', usage: [1, 1, 2] }))],
    odd: [sseText(streamChunks({ calls: [{ args: '{"x":"\uFEFF\u2028"}', id: 'c\u00851', name: 'a' }], reasoning: '\uFEFF\u2028r\u2029', split: 2, text: '\uFEFFa\u2028\u2029b\u0085\v\f\uFEFF\u00A0 ', usage: [1, 2, 3] })), sseText(streamChunks({ text: '\uFEFF', usage: [1, 1, 2] }))],
    noise: [`: keep-alive\n\nid: 7\nevent: message\n${sseText(streamChunks({ text: 'aé', usage: [1, 1, 2] }), { done: false }).replace('data: ', 'data:')}\n\n: bye\n\ndata: [DONE]\n\n`],
    spread: [spread(sseText(streamChunks({ calls: [{ args: '{"x":"1"}', id: 'c1', name: 'a' }], text: 'ü', usage: [1, 2, 3] }))), sseText(streamChunks({ text: 'done', usage: [1, 1, 2] }))],
    multiline: [sseText(streamChunks({ text: 'ab', usage: [1, 1, 2] })).replace('"choices":', '\ndata: "choices":')],
    bad: [`${sseText(streamChunks({ text: 'ok', usage: [1, 1, 2] }), { done: false })}data: {"choices": é bad\n\ndata: [DONE]\n\n`],
    error: [`${sseText(streamChunks({ text: 'ok' }), { done: false })}data: {"error":{"message":"überlastet"}}\n\n`],
  },
  resp: {
    text: [respSse(respEvents({ reasoning: 'thé 🤔', split: 2, text: 'Héllo 日本 😀!', usage: [1, 2, 3] }))],
    tools: [respSse(respEvents({ calls: [{ args: '{"x":"é😀"}', id: 'c1', name: 'a' }], split: 2, text: 'ü', usage: [1, 2, 3] })), respSse(respEvents({ text: 'done', usage: [1, 1, 2] }, 1))],
    odd: [respSse(respEvents({ split: 2, text: '\uFEFFa\u2028\u2029b\u0085\v\uFEFF ', usage: [1, 2, 3] }))],
    spread: [spread(respSse(respEvents({ text: 'ü', usage: [1, 2, 3] })))],
    bad: [`${respSse(respEvents({ text: 'ok' }).slice(0, 5), { done: false })}data: {"type": é\n\n`],
  },
  speech: {
    audio: [respSse([{ audio: b64([1, 2, 3]), type: 'speech.audio.delta' }, { audio: b64([255, 0, 128, 7]), type: 'speech.audio.delta' }, { audio: '', type: 'speech.audio.delta' }, { audio: b64([9]), type: 'speech.audio.delta' }, { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }])],
    spread: [spread(respSse([{ audio: b64([1, 2, 3]), type: 'speech.audio.delta' }, { audio: b64([9]), type: 'speech.audio.delta' }, { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }]))],
    nousage: [respSse([{ audio: b64([5, 6]), type: 'speech.audio.delta' }, { type: 'speech.audio.done' }], { done: false })],
    bad: [respSse([{ audio: b64([5, 6]), type: 'speech.audio.delta' }, '{"bäd'], { done: false })],
  },
  transcription: {
    text: [respSse([{ delta: 'Grüß ', type: 'transcript.text.delta' }, { delta: '日本', type: 'transcript.text.delta' }, { delta: '', type: 'transcript.text.delta' }, { delta: '😀\n', type: 'transcript.text.delta' }, { text: 'Grüß 日本😀\n', type: 'transcript.text.done' }])],
    odd: [respSse([{ delta: '\uFEFFa\u2028', type: 'transcript.text.delta' }, { delta: '\uFEFF', type: 'transcript.text.delta' }, { delta: '\u2029\v\u0085 ', type: 'transcript.text.delta' }, { text: '\uFEFFa\u2028\uFEFF\u2029\v\u0085 ', type: 'transcript.text.done' }])],
    spread: [spread(respSse([{ delta: 'Grüß ', type: 'transcript.text.delta' }, { delta: '日本', type: 'transcript.text.delta' }, { text: 'Grüß 日本', type: 'transcript.text.done' }]))],
    bad: [respSse([{ delta: 'a', type: 'transcript.text.delta' }, '{"délta'], { done: false })],
  },
}
export { canon }
