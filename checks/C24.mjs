import { MESSAGES, TOOL_TURNS, TOOLS, FINAL_TURNS } from '../lib/families.mjs'
import { startCall } from '../lib/chat.mjs'
import { canon, sequences } from '../lib/util.mjs'
import C23, { EMBED, faults, installTracer } from './C23.mjs'

const ERROR = 2
const json = (v) => { try { return JSON.stringify(v) } catch { return undefined } }
const same = (a, b) => canon(a) === canon(b)
// attributes of the caller that the library would set itself: the caller's are kept
const OWN = { address: { 'server.address': 'proxy', 'server.port': 1 }, all: { 'gen_ai.embeddings.dimension.count': 9, 'gen_ai.operation.name': 'op', 'gen_ai.provider.name': 'azure', 'gen_ai.request.model': 'mine', 'server.address': 'proxy' }, empty: {}, model: { 'gen_ai.request.model': 'mine' }, odd: { '': 'x', 'list': ['a', 'b'], 'no': false, 'zero': 0 }, provider: { 'gen_ai.provider.name': 'azure' } }
const parse = (t) => { try { return JSON.parse(t) } catch { return { unparsable: t } } }

export default {
  id: 'C24',
  bundle: 'telemetry',
  block: 8,
  dev: { quick: 0, thorough: 1 },
  bounds: {
    quick: 'the telemetry half of C23 with an installed recording tracer: all histories of up to 2 tool turns x stop conditions, hooks, validators, result kinds, prepare-step overrides, legal delta sequences up to length 2, failures of 8 kinds at each step, 6 sets of caller attributes that override those of the library, callbacks throwing errors/strings/null and aborts at each of their invocations, embeddings x 16 answers; response bodies arriving in 2 pieces; two calls of all ordered shapes side by side; completion orders within 1 deviation where tools are deferred',
    thorough: 'histories of up to 3 tool turns, delta sequences up to length 3; 1 deviation everywhere, 2 for side-by-side calls',
  },
  * scenarios(tier) {
    for (const s of C23.scenarios(tier)) if (s.tracer) yield s
    for (const api of ['embed', 'embedMany']) for (const own of Object.keys(OWN)) for (const extra of [{}, { dimensions: 3 }]) yield { answer: 'normal', api, dev: 0, extra, own, tracer: true }
    for (const api of ['gen', 'stream']) {
      for (const seq of sequences(Object.keys(TOOL_TURNS), 2, 1)) yield { api, dev: tier === 'thorough' ? 2 : 1, messages: MESSAGES.user, others: 1, stop: { k: 'never' }, tools: TOOLS, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), FINAL_TURNS.text] }
      for (const seq of sequences(Object.keys(TOOL_TURNS), 1, 0)) yield { api, dev: 0, messages: MESSAGES.user, stop: { k: 'never' }, swap: true, tools: TOOLS, turns: [...seq.map((k, i) => TOOL_TURNS[k](i)), FINAL_TURNS.text] }
      for (const own of Object.keys(OWN)) yield { api, dev: 0, messages: MESSAGES.user, own, stop: { k: 'never' }, tools: TOOLS, turns: [TOOL_TURNS.two(0), FINAL_TURNS.text] }
      // settings of zero, and calls whose id is empty or repeated
      for (const options of [{ frequencyPenalty: 0, presencePenalty: 0, seed: 0, temperature: 0, topK: 0, topP: 0 }, { temperature: 0 }, { maxTokens: 0, seed: 0 }, { frequencyPenalty: -2, temperature: 1, topP: 1 }, { stop: ['a', 'b'] }, { stop: 'a\nb, c' }, { stop: ['', 'x', 'x', '\n'] }, { stop: ' ' }]) yield { api, dev: 0, messages: MESSAGES.user, options, stop: { k: 'never' }, tools: TOOLS, turns: [TOOL_TURNS.two(0), FINAL_TURNS.text] }
      for (const ids of [['', 'x'], [''], ['0', '']]) yield { api, dev: 0, messages: MESSAGES.user, stop: { k: 'never' }, tools: TOOLS, turns: [{ calls: ids.map((id, i) => ({ args: `{"i":${i}}`, id, name: i ? 'b' : 'a' })), text: null, usage: [1, 1, 2] }, FINAL_TURNS.text] }
      for (const baseURL of ['http://h/v1/', 'https://h:8443/v1', 'https://h.example/v1/', 'HTTPS://H.Example/v1/', 'Http://h:443/https:/', 'https://h:80/v1/', 'http://https:8/v1/', 'https://h:443/v1/', new URL('https://h/v1'), 'http://h.example:0/v1']) yield { api, messages: MESSAGES.user, options: { baseURL }, turns: [FINAL_TURNS.text] }
    }
  },
  async execute(env, s) {
    const spans = []
    const runs = []
    installTracer(env, spans, (span) => { span.onEnd = () => { const r = runs.find(r => r.owns(span)); if (span.ended === 1) r?.atEnd(span) } })
    for (let k = 0; k <= (s.others ?? 0); k++) runs.push(s.answer ? embedRun(env, s, spans) : chatRun(env, s, spans, k))
    await env.run()
    for (const span of spans) {
      env.check(span.ended === 1, `the span '${span.name}' is ended ${span.ended} times`)
      env.check(span.early === undefined, `the span '${span.name}' is ended before ${span.early}`)
      env.check(runs.some(r => r.owns(span)), `the span '${span.name}' belongs to no call (attributes ${canon(span.attributes)})`)
    }
    for (const r of runs) r.judge()
    if (s.swap) {
      // the provider that is registered when a call is made gets its spans
      const later = []
      env.lib.trace.disable()
      installTracer(env, later)
      const seen = canon(spans)
      const again = chatRun(env, s, later, 0)
      await env.run()
      again.judge()
      env.check(later.every(x => x.ended === 1), `a span of the second tracer is not ended once: ${canon(later)}`)
      env.check(canon(spans) === seen, 'a call reports to a tracer that is not registered any more')
    }
    return canon(spans.map(x => [x.name, x.status?.code === ERROR, x.exceptions.length]))
  },
}

/** one span against what it has to say */
function judgeSpan(env, span, { attributes, error, failed }) {
  for (const [k, v] of Object.entries(attributes)) env.check(same(span.attributes[k], v), `the span '${span.name}' has ${k} = ${canon(span.attributes[k])} instead of ${canon(v)}`)
  env.check((span.status?.code === ERROR) === failed, `the span '${span.name}' has status ${canon(span.status)} although its work ${failed ? 'failed' : 'succeeded'}`)
  if (!failed) env.check(span.exceptions.length === 0, `the span '${span.name}' records an exception although its work succeeded`)
  else if (error instanceof Error) {
    if (span.attributes['error.type'] !== undefined) env.expect(span.attributes['error.type'], error.name, `the type of the error of the span '${span.name}'`)
    env.check(span.exceptions.some(e => e === error || e?.message === error.message), `the span '${span.name}' does not record the error ${canon(error)}: ${canon(span.exceptions)}`)
  }
}

const address = (baseURL) => { const u = new URL(baseURL); return { 'server.address': u.hostname, 'server.port': u.port ? Number(u.port) : u.protocol === 'https:' ? 443 : 80 } }

function embedRun(env, s, spans) {
  const ctl = new AbortController()
  const why = s.abort?.endsWith('default') ? undefined : s.abort?.endsWith('timeout') ? new DOMException('took too long', 'TimeoutError') : 'stop'
  if (s.abort?.startsWith('before')) ctl.abort(why)
  let req
  const attributes = s.own ? OWN[s.own] : { 'my.attr': 'v', 'n': 1 }
  const o = { baseURL: 'http://srv/v1/', fetch: (i, init) => env.fetchWith(() => ({ ...EMBED[s.answer] }), i, init, (r) => { req = r }), input: s.api === 'embed' ? 'text é' : ['a', 'b é'], model: 'm', ...s.extra, telemetry: { attributes }, ...(s.abort ? { abortSignal: ctl.signal } : {}) }
  if (s.abort?.startsWith('during')) env.onRequest = () => ctl.abort(why)
  const r = env.watch(env.lib.telemetry[s.api](o), 'embed')
  return {
    atEnd: (span) => { if (req && !req.aborted && req.answered && !req.bodyDone && !req.cancelled && !EMBED[s.answer].status && !EMBED[s.answer].nullBody && !EMBED[s.answer].reject) span.early = 'the response has arrived'; if (req && !req.aborted && !req.answered) span.early = 'the request is answered' },
    judge: () => {
      env.check(r.settled, 'the call never settles')
      env.check(spans.length === 1, `${spans.length} spans for one embedding call`)
      const usage = EMBED[s.answer].json?.usage?.prompt_tokens
      env.check(spans[0].name === 'embeddings m', `the span is named '${spans[0].name}'`)
      judgeSpan(env, spans[0], { attributes: { 'gen_ai.operation.name': 'embeddings', 'gen_ai.request.model': 'm', ...(s.extra.dimensions ? { 'gen_ai.embeddings.dimension.count': s.extra.dimensions } : {}), ...address('http://srv/v1/'), ...attributes, ...(r.ok && usage != null ? { 'gen_ai.usage.input_tokens': usage } : {}) }, error: r.error, failed: !r.ok })
    },
    owns: () => true,
  }
}

function chatRun(env, s, spans, k) {
  const ctl = new AbortController()
  const fault = faults(s, ctl)
  const attributes = s.own ? { call: k, ...OWN[s.own] } : { 'call': k, 'my.attr': `v${k}` }
  const tag = k ? String(k) : ''
  const runs = []
  const ids = new Set()
  const own = { ...s, model: `m${tag}`, options: { ...s.options, telemetry: { attributes } }, turns: JSON.parse(JSON.stringify(s.turns)) }
  for (const t of own.turns) for (const c of t.calls ?? []) { c.id += tag; ids.add(c.id) }
  for (const [i, t] of own.turns.entries()) if (t.answer) t.answer = s.turns[i].answer
  const h = startCall(env, own, s.api, { autoBody: false, chunking: text => text.length > 2 ? [text.slice(0, text.length >> 1), text.slice(text.length >> 1)] : [text], lib: env.lib.telemetry, patch: (o) => {
    fault(o)
    // outermost, so that a throwing callback counts as the tool failing
    for (const t of o.tools ?? []) {
      const f = t.execute
      t.execute = async (input, x) => {
        const rec = { id: x.toolCallId, input: json(input), name: t.function.name, settled: false }
        runs.push(rec)
        try { const v = await f(input, x); rec.ok = true; rec.result = json(v); return v }
        catch (e) { rec.ok = false; rec.error = e; throw e }
        finally { rec.settled = true }
      }
    }
  }, tag })
  const isTool = span => span.attributes['gen_ai.operation.name'] === 'execute_tool'
  const owns = span => isTool(span) ? (!s.others || runs.some(r => r.id === span.attributes['gen_ai.tool.call.id'])) || ids.has(span.attributes['gen_ai.tool.call.id']) : !s.others || span.attributes.call === k
  const mine = () => spans.filter(owns)
  return {
    atEnd: (span) => {
      if (isTool(span)) {
        const nth = mine().filter(x => isTool(x) && x.attributes['gen_ai.tool.call.id'] === span.attributes['gen_ai.tool.call.id']).indexOf(span)
        const rec = runs.filter(r => r.id === span.attributes['gen_ai.tool.call.id'])[nth]
        if (rec && !rec.settled) span.early = 'the tool has finished'
        return
      }
      if (span.status?.code === ERROR) return
      const chats = mine().filter(x => !isTool(x))
      const req = h.obs.requests[chats.indexOf(span)]
      if (!req) span.early = 'its request is made'
      else if (!req.answered) span.early = 'its request is answered'
      else if (!req.bodyDone && !req.cancelled && !ctl.signal.aborted) span.early = 'its response has arrived'
      if (chats.at(-1) === span && runs.some(r => !r.settled)) span.early = 'its tools have finished'
    },
    judge: () => {
      const res = s.api === 'gen' ? h.promise : h.steps
      env.check(res.settled, 'the call never settles')
      const all = mine()
      const chats = all.filter(x => !isTool(x))
      const tools = all.filter(isTool)
      const reqs = h.obs.requests
      // a step that fails before it reaches the server has a span of its own
      env.check(chats.length === reqs.length || (!res.ok && chats.length === reqs.length + 1), `${chats.length} model spans for ${reqs.length} requests`)
      const outside = fault.thrown && ['finish', 'prep'].includes(s.throwAt[0])
      const baseURL = s.options?.baseURL ?? `http://srv${tag}/v1/`
      const steps = res.ok ? (s.api === 'gen' ? res.value.steps : res.value) : h.obs.stepsSeen
      for (const [i, span] of chats.entries()) {
        const failed = !res.ok && !outside && i === chats.length - 1
        const model = reqs[i]?.json?.model
        if (model !== undefined) env.check(span.name === `chat ${model}`, `a request for ${model} has a span named '${span.name}'`)
        const usage = !failed && steps[i]?.usage
        judgeSpan(env, span, { attributes: {
          'gen_ai.operation.name': 'chat', ...(model !== undefined ? { 'gen_ai.request.model': model } : {}), ...address(baseURL), ...attributes,
          ...(!failed ? { 'gen_ai.response.finish_reasons': [steps[i].finishReason] } : {}),
          ...(usage ? { 'gen_ai.usage.input_tokens': usage.inputTokens, 'gen_ai.usage.output_tokens': usage.outputTokens } : {}),
          ...Object.fromEntries([['temperature', 'temperature'], ['seed', 'seed'], ['topP', 'top_p'], ['topK', 'top_k'], ['frequencyPenalty', 'frequency_penalty'], ['presencePenalty', 'presence_penalty']].filter(([k]) => s.options?.[k] !== undefined).map(([k, w]) => [`gen_ai.request.${w}`, s.options[k]])),
          ...(s.options?.stop !== undefined ? { 'gen_ai.request.stop_sequences': [s.options.stop].flat() } : {}),
        }, error: res.error, failed })
        if (reqs[i]?.json?.messages) env.expect(parse(span.attributes['gen_ai.input.messages']), reqs[i].json.messages, `the input messages of the span '${span.name}'`)
        if (h.opts.tools?.length) env.expect(parse(span.attributes['gen_ai.tool.definitions']), JSON.parse(JSON.stringify(h.opts.tools.map(({ function: f, type }) => ({ function: f, type })))), `the tool definitions of the span '${span.name}'`)
        if (!failed && s.api === 'gen' && span.attributes['gen_ai.output.messages'] !== undefined && res.ok) {
          const out = parse(span.attributes['gen_ai.output.messages'])
          env.check(Array.isArray(out) && out.length === 1 && res.value.messages.some(m => json(m) === json(out[0])), `the output messages of the span '${span.name}' are not the model's: ${canon(out)}`)
        }
      }
      env.check(tools.length === runs.length, `${tools.length} tool spans for ${runs.length} tool executions`)
      const left = [...runs]
      for (const span of tools) {
        const i = left.findIndex(r => r.id === span.attributes['gen_ai.tool.call.id'])
        env.check(i >= 0, `a tool span names the call ${canon(span.attributes['gen_ai.tool.call.id'])}, which was not executed (again)`)
        const [rec] = left.splice(i, 1)
        env.check(span.name === `execute_tool ${rec.name}`, `an execution of ${rec.name} has a span named '${span.name}'`)
        judgeSpan(env, span, { attributes: {
          'gen_ai.tool.call.name': rec.name,
          ...(rec.input !== undefined ? { 'gen_ai.tool.call.arguments': rec.input } : {}),
          ...(rec.ok && rec.result !== undefined ? { 'gen_ai.tool.call.result': rec.result } : {}),
        }, error: rec.error, failed: !rec.ok })
      }
    },
    owns,
  }
}
