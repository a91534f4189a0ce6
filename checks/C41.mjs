import { genBody, sseText, streamChunks } from '../lib/chat.mjs'
import { KINDS, optionsFor } from '../lib/kinds.mjs'
import { canon, subsets } from '../lib/util.mjs'

// class -> [code, the fields its options carry]
const CLASSES = {
  APICallError: ['api_call_error', ['requestBody', 'responseBody'], ['response']],
  InvalidResponseError: ['invalid_response', ['body', 'contentType', 'response', 'responseBody'], ['reason']],
  InvalidToolCallError: ['invalid_tool_call', ['availableTools', 'toolName'], ['reason', 'toolCall']],
  InvalidToolInputError: ['invalid_tool_input', [], ['toolInput', 'toolName']],
  JSONParseError: ['json_parse_error', [], ['text']],
  RemoteAPIError: ['remote_api_error', ['response'], ['responseBody']],
  ToolExecutionError: ['tool_execution_error', ['toolCallId'], ['toolInput', 'toolName']],
}
const VALUES = {
  availableTools: [['a', 'b'], []], body: [{ a: 1 }, 'x'], contentType: ['text/html', null], reason: ['empty_body', 'unknown_tool'], requestBody: ['{"a":1}', ''], response: ['r404', 'r200', 'odd', 'odd3'],
  responseBody: ['no', ''], text: ['{oops', ''], toolCall: [{ id: 'x' }, null], toolCallId: ['id', ''], toolInput: [{ a: [1] }, ''], toolName: ['t', ''],
}
const CAUSES = { err: () => new TypeError('why'), list: () => [{ message: 'bad' }], none: undefined, nul: () => null, str: () => 'why' }
const odd = () => { const h = new Headers({ 'content-security-policy': 'none', 'date': 'Thu, 01 Jan 1970 00:00:00 GMT', 'location': '/else', 'server': 's', 'WWW-Authenticate': 'Bearer', 'x-empty': '', 'x-ratelimit-remaining': '0', 'x-Two': 'a' }); h.append('x-two', 'b'); h.append('set-cookie', 'a=1; Path=/'); return h }
const at = (url, response) => Object.defineProperty(response, 'url', { value: url })
const WHERE = 'https://u:p@srv.test:8443/v1/%C3%A9%2F/chat?api-version=1&key=#part'
const RESPONSES = { odd: () => at(WHERE, new Response('x', { headers: odd(), status: 503 })), odd3: () => at('http://srv/?', new Response(null, { headers: odd(), status: 304 })), r200: () => new Response('ok'), r404: () => new Response('no', { headers: { 'retry-after': '7', 'X-Request-Id': 'abc' }, status: 404, statusText: 'Said So' }) }
const LOOPS = ['gen', 'genobj', 'resp', 'stream', 'telemetryGen', 'telemetryStream']
const STREAMED = ['stream', 'telemetryStream', 'resp', 'elements', 'partial', 'speechStream', 'transcriptionStream']
const JSONY = ['gen', 'telemetryGen', 'genobj', 'embed', 'embedMany', 'telemetryEmbed', 'telemetryEmbedMany', 'image', 'transcription', 'models', 'model']
const kindOf = k => ({ telemetryEmbed: 'embed', telemetryEmbedMany: 'embedMany', telemetryGen: 'gen', telemetryStream: 'stream' })[k] ?? k
const ALL = [...Object.keys(KINDS), 'telemetryEmbed', 'telemetryEmbedMany', 'telemetryGen', 'telemetryStream']
const bad = { args: { function: { name: 'a' }, id: 'z', type: 'function' }, name: { function: { arguments: '{}' }, id: 'z', type: 'function' }, nulls: { function: { arguments: null, name: 'a' }, id: 'z', type: 'function' } }

export default {
  id: 'C41',
  bundle: 'core',
  bundles: ['telemetry'],
  block: 16,
  dev: { quick: 0, thorough: 1 },
  bounds: {
    quick: 'the 7 error classes x every subset of their optional fields x 2 values per field x 5 causes x 3 messages, responses with 10 unusual headers and unusual URLs, subclasses of the caller, 12 look-alikes; every failure xsAI reports itself (failing status, no body, no stream, malformed JSON or message, error payload, no choices, empty object answer, unusable tool call, changed call id) in each of the 19 calls it can happen in: the error against every class',
    thorough: 'completion orders within 1 deviation',
  },
  * scenarios() {
    for (const c of Object.keys(CLASSES)) for (const given of subsets(CLASSES[c][1])) for (const v of [0, 1]) for (const cause of Object.keys(CAUSES)) for (const message of ['', 'it failed', 'ü😀\n']) yield { cause, class: c, given, message, v }
    for (const c of ['XSAIError', ...Object.keys(CLASSES)]) yield { class: c, sub: true }
    for (const v of [2, 3]) for (const given of subsets(CLASSES.APICallError[1])) yield { cause: 'err', class: 'APICallError', given, message: 'm', v }
    for (let i = 0; i < LOOKALIKES({}).length; i++) yield { alike: i }
    for (const kind of ALL) {
      yield { f: 'status', kind, odd: true }
      for (const f of ['status', 'nullBody', 'noStream', 'noBody']) yield { f, kind }
      if (JSONY.includes(kind)) yield { f: 'json', kind }
      if (STREAMED.includes(kind)) for (const at of [0, 1]) for (const f of ['message', 'payload']) yield { at, f, kind }
      if (['gen', 'telemetryGen', 'genobj'].includes(kind)) yield { f: 'choices', kind }
      if (['genobj', 'elements', 'partial'].includes(kind)) for (const text of ['', null]) yield { f: 'emptyObject', kind, text }
      if (LOOPS.includes(kind)) {
        for (const b of Object.keys(bad)) if (kind !== 'resp') yield { b, f: 'call', kind }
        for (const hook of ['preToolCall', 'postToolCall']) for (const to of ['other', '', undefined, null]) yield { f: 'hook', hook, kind, to }
      }
    }
  },
  async execute(env, s) {
    if (s.alike !== undefined) {
      const x = LOOKALIKES(env.lib)[s.alike]
      for (const c of ['XSAIError', ...Object.keys(CLASSES)]) env.check(env.lib[c].isInstance(x) === false, `${c}.isInstance takes ${canon(x)} for its own`)
      return 'no'
    }
    if (s.sub) {
      const Base = env.lib[s.class]
      class Own extends Base {}
      const e = s.class === 'XSAIError' ? new Own('m', 'own_code', { cause: 1 }) : new Own('m', { reason: 'r', response: new Response('x'), responseBody: 'b', text: 't', toolCall: 1, toolInput: 1, toolName: 't' })
      env.check(e.name === 'Own' && e.message === 'm' && e instanceof Error, `a subclass of ${s.class} is named ${e.name}`)
      env.check(e.code === (s.class === 'XSAIError' ? 'own_code' : CLASSES[s.class][0]), `a subclass of ${s.class} has the code ${e.code}`)
      env.check(Own.isInstance(e) && Base.isInstance(e) && env.lib.XSAIError.isInstance(e), `a subclass of ${s.class} is not recognised`)
      env.check(!Own.isInstance(new env.lib.JSONParseError('m', { text: 't' })), 'a subclass recognises its base')
      // relatives of all kinds: same code, same name, a longer name
      const opt = { reason: 'r', response: new Response('x'), responseBody: 'b', text: 't', toolCall: 1, toolInput: 1, toolName: 't' }
      const make = C => s.class === 'XSAIError' ? new C('m', 'own_code', opt) : new C('m', opt)
      env.check(!Own.isInstance(make(Base)), 'a subclass recognises its base')
      const Same = (() => { class Own extends Base {} return Own })()
      class OwnToo extends Base {}
      class Deeper extends Own {}
      const Elsewhere = (() => { class Own extends env.lib.XSAIError { constructor() { super('m', e.code) } } return Own })()
      for (const C of [Same, OwnToo, Elsewhere]) {
        const other = C === Elsewhere ? new C() : make(C)
        env.check(!Own.isInstance(other) && !C.isInstance(e) && C.isInstance(other), `of unrelated subclasses of ${s.class} one recognises the errors of another`)
      }
      env.check(Own.isInstance(make(Deeper)) && !Deeper.isInstance(e) && make(Deeper).name === 'Deeper', `a subclass of a subclass of ${s.class} is not recognised`)
      return 'sub'
    }
    if (s.class) {
      const o = {}
      for (const k of [...s.given, ...CLASSES[s.class][2]]) o[k] = k === 'response' ? RESPONSES[VALUES[k][s.v]]() : VALUES[k][s.v % 2]
      if (CAUSES[s.cause]) o.cause = CAUSES[s.cause]()
      const e = new env.lib[s.class](s.message, Object.freeze(o))
      isA(env, env.lib, e, s.class, s.message)
      for (const k of [...CLASSES[s.class][1], ...CLASSES[s.class][2]]) env.check(Object.is(e[k], o[k]), `${k} of the ${s.class} is ${canon(e[k])} instead of ${canon(o[k])}`)
      env.check(Object.is(e.cause, o.cause), `the cause of the ${s.class} is ${canon(e.cause)} instead of ${canon(o.cause)}`)
      if (s.class === 'APICallError') { const r = o.response; env.expect([e.statusCode, e.statusText, e.url, e.responseHeaders], [r.status, r.statusText, r.url, Object.fromEntries(r.headers.entries())], 'the response facts of the APICallError') }
      return `${s.class}${s.given.length}`
    }
    // ---- errors of calls
    const traced = s.kind.startsWith('telemetry')
    const both = traced ? env.instantiate(env.factories.telemetry) : undefined
    const lib = both ? both.telemetry : env.lib
    const classes = both ? both.plain : env.lib
    const kind = kindOf(s.kind)
    const good = KINDS[kind].server('A')
    const streaming = STREAMED.includes(s.kind)
    let n = 0
    let response
    const server = (rec) => {
      const k = n++
      const ok = good(rec)
      const plain = body => ({ raw: response = { body, headers: new Headers({ 'content-type': 'text/html' }), json: async () => ({}), ok: true, status: 200, statusText: '', text: async () => '{}', url: rec.url } })
      if (k > 0) return ok
      switch (s.f) {
        case 'status': return { raw: response = at(s.odd ? WHERE : rec.url, new Response('{"why":1}', { headers: s.odd ? (() => { const h = odd(); h.set('x-id', '7'); return h })() : { 'x-id': '7' }, status: 422, statusText: 'Said So' })) }
        case 'nullBody': return { raw: response = new Response(null, { status: 200 }) }
        case 'noBody': return plain(undefined)
        case 'noStream': return plain('text')
        case 'json': return { auto: true, text: '{"oops' }
        case 'message': case 'payload': {
          const all = Buffer.concat(ok.chunks.map(c => Buffer.from(c))).toString().split(/(?<=\n\n)/)
          return { chunks: [...all.slice(0, s.at), `data: ${s.f === 'message' ? '{oops' : '{"error":{"message":"no"}}'}\n\n`], headers: { 'content-type': 'text/event-stream' } }
        }
        case 'choices': return { auto: true, json: { choices: [], id: 'x' } }
        case 'emptyObject': return streaming ? { auto: true, chunks: [sseText(streamChunks({ text: s.text }))], headers: {} } : { auto: true, json: genBody({ text: s.text }) }
        case 'call': return streaming
          ? { auto: true, chunks: [sseText([{ choices: [{ delta: { tool_calls: [{ index: 0, ...bad[s.b] }] }, index: 0 }] }, { choices: [{ delta: {}, finish_reason: 'tool_calls', index: 0 }] }])], headers: {} }
          : { auto: true, json: { ...genBody({ text: null }), choices: [{ finish_reason: 'tool_calls', index: 0, message: { content: null, role: 'assistant', tool_calls: [bad[s.b]] } }] } }
        default: return ok
      }
    }
    const { o } = optionsFor(env, kind, 'A', { fetch: (i, init) => env.fetchWith(server, i, init), ...(s.f === 'call' || s.f === 'hook' ? { stopWhen: () => false } : {}) })
    if (s.f === 'hook') o[s.hook] = c => ({ ...c, toolCallId: s.to })
    const h = KINDS[kind].start(env, lib, o, 'A')
    await env.run()
    const failed = Object.entries(h).filter(([, r]) => r && typeof r === 'object' && ('items' in r ? r.failed : r.settled && !r.ok))
    // streamed calls with no arguments are calls whose arguments are empty
    if (s.f === 'call' && streaming && s.b !== 'name') { env.check(failed.length === 0, `the call fails with ${canon(failed[0]?.[1].error)}`); return 'fine' }
    env.check(failed.length > 0, 'nothing fails')
    for (const [, { error: e }] of failed) {
      const want = (name, props) => { isA(env, classes, e, name); for (const k in props) env.check(canon(e[k]) === canon(props[k]), `${k} of the ${name} is ${canon(e[k])} instead of ${canon(props[k])}`) }
      switch (s.f) {
        case 'status': want('APICallError', { responseBody: '{"why":1}', statusCode: 422, statusText: 'Said So', url: response.url }); env.check(e.response === response, 'the APICallError does not carry the response'); env.expect(e.responseHeaders, Object.fromEntries(response.headers.entries()), 'the response headers of the APICallError'); break
        case 'nullBody': case 'noBody': want('InvalidResponseError', { reason: 'empty_body' }); env.check(e.response === response, 'the error does not carry the response'); break
        case 'noStream': want('InvalidResponseError', { body: 'text', contentType: 'text/html', reason: 'invalid_body' }); env.check(e.response === response, 'the error does not carry the response'); break
        case 'json': want('JSONParseError', { text: '{"oops' }); env.check(e.cause instanceof SyntaxError, `the cause of the JSONParseError is ${canon(e.cause)}`); break
        case 'message': want('JSONParseError', { text: '{oops' }); env.check(e.cause instanceof SyntaxError, `the cause of the JSONParseError is ${canon(e.cause)}`); break
        case 'payload': want('RemoteAPIError', { responseBody: '{"error":{"message":"no"}}' }); break
        case 'choices': want('InvalidResponseError', { reason: 'no_choices' }); env.check(JSON.stringify(JSON.parse(e.responseBody)) === '{"choices":[],"id":"x"}', 'the error lacks the response body'); break
        case 'emptyObject': want('InvalidResponseError', { reason: 'empty_body' }); break
        case 'call': want('InvalidToolCallError', { reason: s.b === 'name' ? 'missing_name' : 'missing_arguments' }); env.check(e.toolCall?.id === 'z', `the error carries the call ${canon(e.toolCall)}`); break
        case 'hook': want('InvalidToolCallError', { reason: 'tool_call_id_mismatch' }); env.check(Object.is(e.toolCall?.toolCallId, s.to), `the error carries the call ${canon(e.toolCall)}`); break
      }
    }
    return canon(failed.map(([k]) => k))
  },
}

/** an error against every class */
function isA(env, lib, e, name, message) {
  env.check(e instanceof Error && e.name === name && e.code === CLASSES[name][0], `expected a ${name}, got ${canon(e)} with the name ${canon(e?.name)} and the code ${canon(e?.code)}`)
  for (const c of ['XSAIError', ...Object.keys(CLASSES)]) {
    const is = c === name || c === 'XSAIError'
    env.check(lib[c].isInstance(e) === is && (e instanceof lib[c]) === is, `a ${name} is ${is ? 'not ' : ''}taken for a ${c}`)
  }
  if (message !== undefined) env.check(e.message === message, `the message is ${canon(e.message)}`)
  else env.check(typeof e.message === 'string' && e.message.length > 0, 'the error has no message')
  env.check(typeof e.stack === 'string', 'the error has no stack')
}

function LOOKALIKES(lib) {
  const fake = (name, code) => Object.assign(new Error('m'), { code, name })
  return [undefined, null, 'api_call_error', 7, {}, [], new Error('m'), new TypeError('m'), new DOMException('a', 'AbortError'), ...Object.entries(CLASSES).map(([n, [c]]) => fake(n, c)), { code: 'api_call_error', message: 'm', name: 'APICallError' }, lib.XSAIError, Object.create(null)]
}
