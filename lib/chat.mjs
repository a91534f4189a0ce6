// The scripted world of the tool-calling loops: turns of a model server in the three
// wire protocols, tools and hooks under the scheduler, and the reference model.
import { canon, clone } from './util.mjs'

// ---------------------------------------------------------------- wire formats
// turn: {text, parts, reasoning, rf, refusal, calls:[{id,name,args}], usage:[i,o,t], finish, deltas, extra}
const usageJson = u => u == null ? undefined : { completion_tokens: u[1], prompt_tokens: u[0], total_tokens: u[2] }
export const usageObj = u => u == null ? undefined : { inputTokens: u[0], outputTokens: u[1], totalTokens: u[2] }
export const wireCall = (c) => {
  const f = {}
  if (c.name !== undefined) f.name = c.name
  if (c.args !== undefined) f.arguments = c.args
  return { function: f, id: c.id, ...('type' in c ? c.type === undefined ? {} : { type: c.type } : { type: 'function' }), ...c.more }
}
export const finishOf = t => t.finish ?? (t.calls?.length ? 'tool_calls' : 'stop')

export const toCompletion = c => ({ args: c.args ?? '', toolCallId: c.id, toolCallType: 'function', toolName: c.name ?? '' })
const usageFromWire = u => u == null ? undefined : { inputTokens: u.prompt_tokens, outputTokens: u.completion_tokens, totalTokens: u.total_tokens }
/** reference reading of one streamed turn: concatenation per field, tool calls grouped by index in index order */
export const foldChunks = (chunks) => {
  const f = { calls: [], finish: undefined, reasoning: undefined, rf: undefined, text: '', texts: 0, usage: undefined }
  const by = new Map()
  for (const c of chunks) {
    if (typeof c === 'string') continue
    if (c.usage != null) f.usage = c.usage
    const ch = c.choices?.[0]
    if (!ch) continue
    const d = ch.delta
    for (const r of ['reasoning', 'reasoning_content']) if (d[r] != null) { f.rf = r; f.reasoning = (f.reasoning ?? '') + d[r] }
    if (d.content != null) { f.text += d.content; f.texts++ }
    if (d.refusal != null) { f.text += d.refusal; f.texts++ }
    for (const t of d.tool_calls ?? []) {
      const e = by.get(t.index)
      if (!e) { by.set(t.index, { args: t.function?.arguments ?? '', more: t.extra_content && { extra_content: t.extra_content }, id: t.id, name: t.function?.name }) }
      else e.args += t.function?.arguments ?? ''
    }
    if (ch.finish_reason != null) f.finish = ch.finish_reason
  }
  f.calls = [...by.keys()].sort((a, b) => a - b).map(k => by.get(k))
  return f
}

/** the assistant message a non-streaming server returns for the turn */
export const assistantMessage = (t) => {
  const m = { role: 'assistant' }
  if ('parts' in t) m.content = t.parts
  else if ('text' in t) m.content = t.text
  if (t.reasoning !== undefined) m[t.rf ?? 'reasoning_content'] = t.reasoning
  if (t.refusal !== undefined) m.refusal = t.refusal
  if (t.calls) m.tool_calls = t.calls.map(wireCall)
  if (t.extra) Object.assign(m, t.extra)
  return m
}
export const genBody = t => ({
  choices: [{ finish_reason: finishOf(t), index: 0, message: assistantMessage(t) }, ...(t.moreChoices ?? [])],
  created: 1, id: 'c', model: 'srv', object: 'chat.completion', system_fingerprint: 'fp', usage: usageJson(t.usage ?? [1, 2, 3]),
})

export const chunkOf = (delta, rest = {}) => ({ choices: [{ delta, index: 0, ...rest }], created: 1, id: 'c', model: 'srv', object: 'chat.completion.chunk', system_fingerprint: 'fp' })
/** stream chunks (objects) of a turn; turn.deltas overrides the default split */
export const streamChunks = (t) => {
  const out = []
  if (t.chunks) return t.chunks
  const r = t.rf ?? 'reasoning_content'
  if (t.deltas) { for (const d of t.deltas) out.push(chunkOf(d)) }
  else {
    out.push(chunkOf({ role: 'assistant' }))
    if (t.reasoning !== undefined) out.push(...splitText(t.reasoning, t.split).map(x => chunkOf({ [r]: x })))
    if (t.text != null) out.push(...splitText(t.text, t.split).map(x => chunkOf({ content: x })))
    if (t.refusal !== undefined) out.push(chunkOf({ refusal: t.refusal }))
    for (const [i, c] of (t.calls ?? []).entries()) {
      const args = c.args ?? undefined
      const cut = args === undefined || args.length < 2 ? [args] : splitText(args, t.split)
      const first = wireCall({ ...c, args: cut[0] })
      out.push(chunkOf({ tool_calls: [{ index: i, ...first }] }))
      for (const a of cut.slice(1)) out.push(chunkOf({ tool_calls: [{ index: i, function: { arguments: a } }] }))
    }
  }
  out.push(chunkOf({}, { finish_reason: finishOf(t) }))
  if (t.usage !== undefined && t.usage !== null) out.push({ choices: [], created: 1, id: 'c', model: 'srv', object: 'chat.completion.chunk', system_fingerprint: 'fp', usage: usageJson(t.usage) })
  return out
}
const splitText = (s, k = 2) => { if (s.length <= 1 || k <= 1) return [s]; const n = Math.ceil(s.length / k); const out = []; for (let i = 0; i < s.length; i += n) out.push(s.slice(i, i + n)); return out }
export const sseText = (objs, { eol = '\n', done = true } = {}) => objs.map(o => `data: ${typeof o === 'string' ? o : JSON.stringify(o)}${eol}${eol}`).join('') + (done ? `data: [DONE]${eol}${eol}` : '')

/** Responses protocol: output items of a turn, and the server events that carry them */
export const respItems = (t, n = 0) => {
  const items = []
  if (t.reasoning !== undefined) items.push({ id: `rs_${n}`, summary: [{ text: t.reasoning, type: 'summary_text' }], type: 'reasoning' })
  if (t.text != null) items.push({ content: [{ annotations: [], text: t.text, type: 'output_text' }], id: `msg_${n}`, role: 'assistant', status: 'completed', type: 'message' })
  for (const [i, c] of (t.calls ?? []).entries()) items.push({ arguments: c.args, call_id: c.id, id: `fc_${n}_${i}`, name: c.name, status: 'completed', type: 'function_call' })
  return items
}
export const respUsage = u => u == null ? null : { input_tokens: u[0], output_tokens: u[1], total_tokens: u[2] }
export const respEvents = (t, n = 0) => {
  if (t.events) return t.events
  const items = respItems(t, n)
  const ev = [{ response: { id: `r${n}`, output: [], status: 'in_progress' }, type: 'response.created' }]
  items.forEach((item, i) => {
    if (item.type === 'reasoning') {
      ev.push({ item: { ...item, summary: [] }, output_index: i, type: 'response.output_item.added' })
      const s = splitText(t.reasoning, t.split)
      for (const d of s) ev.push({ delta: d, item_id: item.id, output_index: i, type: 'response.reasoning_summary_text.delta' })
      ev.push({ item_id: item.id, output_index: i, text: t.reasoning, type: 'response.reasoning_summary_text.done' })
    }
    else if (item.type === 'message') {
      ev.push({ item: { ...item, content: [], status: 'in_progress' }, output_index: i, type: 'response.output_item.added' })
      ev.push({ content_index: 0, item_id: item.id, output_index: i, part: { annotations: [], text: '', type: 'output_text' }, type: 'response.content_part.added' })
      for (const d of splitText(t.text, t.split)) ev.push({ content_index: 0, delta: d, item_id: item.id, output_index: i, type: 'response.output_text.delta' })
      ev.push({ content_index: 0, item_id: item.id, output_index: i, text: t.text, type: 'response.output_text.done' })
    }
    else {
      ev.push({ item: { ...item, arguments: '', status: 'in_progress' }, output_index: i, type: 'response.output_item.added' })
      for (const d of splitText(item.arguments ?? '', t.split)) ev.push({ delta: d, item_id: item.id, output_index: i, type: 'response.function_call_arguments.delta' })
      ev.push({ arguments: item.arguments, item_id: item.id, output_index: i, type: 'response.function_call_arguments.done' })
    }
    ev.push({ item, output_index: i, type: 'response.output_item.done' })
  })
  const status = t.status ?? 'completed'
  ev.push({ response: { id: `r${n}`, output: items, status, usage: respUsage(t.usage) }, type: `response.${status}` })
  return ev
}
export const respSse = (events, { eol = '\n', done = true } = {}) => events.map(e => typeof e === 'string' ? `data: ${e}${eol}${eol}` : `event: ${e.type}${eol}data: ${JSON.stringify(e)}${eol}${eol}`).join('') + (done ? `data: [DONE]${eol}${eol}` : '')

// ---------------------------------------------------------------- tools and hooks
/** a value in its own class that says itself how it is written as JSON */
class Money {
  #cents
  constructor(cents) { this.#cents = cents }
  toJSON() { return `${this.#cents / 100} €` }
}
/** what other promise libraries return: something that only has a then */
export const thenable = p => ({ then: (ok, no) => { p.then(ok, no) } })
const later = (env, how, label, f) => how === 'then' ? thenable(env.defer(label, f)) : env.defer(label, f)
export const RESULTS = {
  echo: (name, input) => `${name}:${canon(input)}`,
  obj: (name, input) => ({ in: input, tool: name }),
  nested: () => ({ a: [1, { b: null }], 'ü"': '\n' }),
  parts: name => [{ text: `p-${name}`, type: 'text' }, { image_url: { url: 'http://i' }, type: 'image_url' }],
  file: name => [{ file: { file_data: 'data:,x', filename: name }, type: 'file' }],
  audio: name => [{ input_audio: { data: 'AA', format: 'wav' }, type: 'input_audio' }, { text: name, type: 'text' }],
  allparts: name => [{ text: name, type: 'text' }, { file: { file_id: 'f1' }, type: 'file' }, { image_url: { detail: 'low', url: 'data:,i' }, type: 'image_url' }, { input_audio: { data: '', format: 'mp3' }, type: 'input_audio' }],
  rfile: name => [{ file_id: name, type: 'input_file' }],
  rimage: () => [{ detail: 'low', file_id: 'f', type: 'input_image' }, { text: '', type: 'input_text' }],
  mixed: name => [{ text: name, type: 'text' }, { type: 'weird' }],
  mixedfile: name => [{ file: { file_id: name }, type: 'file' }, { file_id: name, type: 'input_file' }],
  untyped: name => [{ text: name }],
  near: name => [{ text: name, type: 'text_delta' }],
  caps: name => [{ text: name, type: 'TEXT' }],
  output: name => [{ text: name, type: 'output_text' }],
  video: name => [{ input_video: { data: 'AA' }, type: 'input_video' }, { text: name, type: 'input_text' }],
  number: () => [{ type: 'input_number', v: 1 }],
  image: () => [{ data: 'AA', mimeType: 'image/png', type: 'image' }],
  refused: name => [{ refusal: name, type: 'refusal' }],
  proto: () => [{ type: 'constructor' }, { type: 'length' }],
  typed: () => [{ type: ['text'] }, { type: 0 }, { type: null }],
  strings: () => ['a', 'b'],
  nullitem: () => [null, 1],
  rparts: name => [{ text: name, type: 'input_text' }, { image_url: 'http://x', type: 'input_image' }, { file_data: 'data:,x', filename: 'f', type: 'input_file' }],
  rmixed: name => [{ text: name, type: 'input_text' }, { text: 'x', type: 'text' }],
  empty: () => '',
  json: () => '{"already":"json"}',
  unicode: () => '日本\u2028😀\u0000',
  date: () => ({ at: new Date(86400000), never: undefined, one: 1 / 3 }),
  money: name => ({ name, price: new Money(1250) }),
  link: () => ({ link: new URL('http://h/p?q=1#f'), list: [new Date(0), undefined, NaN] }),
  ownJson: () => new Money(5),
  toText: () => ({ toJSON: () => ({ as: 'json' }), toString: () => 'no' }),
  boxed: () => Object.assign(Object.create({ inherited: 1 }), { own: 2 }),
  lone: () => 'a\uD83D',
}
/** results outside the documented types, for differential checks only */
export const ODD_RESULTS = { big: () => 10n, circ: () => { const o = { a: 1 }; o.self = o; return o }, fn: () => () => 1, nul: () => null, num: () => 7, undef: () => undefined }
const PART_TYPES = { chat: ['file', 'image_url', 'input_audio', 'text'], resp: ['input_file', 'input_image', 'input_text'] }
export const serialise = (r, proto = 'chat') => {
  if (typeof r === 'string') return r
  if (Array.isArray(r) && r.length > 0 && r.every(x => x !== null && typeof x === 'object' && PART_TYPES[proto].includes(x.type))) return r
  return JSON.stringify(r)
}
export const validatorOutcome = (spec, input) => {
  switch (spec) {
    case 'value': case 'valueAsync': return { value: { checked: input } }
    case 'strip': return { value: 'stripped' }
    case 'undef': return { value: undefined }
    case 'big': return { value: { n: 10n } }
    case 'circ': return { value: ODD_RESULTS.circ() }
    case 'fn': return { value: () => 1 }
    case 'issues': case 'issuesAsync': return { issues: [{ message: 'bad' }] }
    case 'noissues': return { issues: [], value: input }
    default: return undefined
  }
}

/** a tool that is an instance of a class: its methods are inherited and need their object */
class OwnTool {
  #tool
  constructor(tool) { this.#tool = tool; this.function = tool.function; this.type = tool.type }
  execute(...a) { return this.#tool.execute(...a) }
}
class OwnValidatedTool extends OwnTool {
  #check
  constructor(tool) { super(tool); this.#check = tool.validate }
  validate(...a) { return this.#check(...a) }
}
/** makes the tool objects; obs collects what they saw */
export const makeTools = (env, tools, obs, o = {}) => tools?.map((t) => {
  const tool = {
    execute: (input, opts) => {
      const rec = { id: opts?.toolCallId, input: snapshot(input), messages: snapshot(opts?.messages), name: t.name, seq: obs.clock++, signal: opts?.abortSignal, ended: undefined }
      obs.execs.push(rec)
      env.log('exec', t.name, rec.id ?? '?')
      o.onExec?.(rec)
      const produce = () => {
        rec.ended = obs.clock++
        // what a tool was told must still be so when it gets round to using it
        if (opts?.toolCallId !== rec.id || opts?.abortSignal !== rec.signal || (!o.scribble && canon(snapshot(opts?.messages)) !== canon(rec.messages))) env.fail(`the options of tool call ${rec.id} changed while the tool was running: ${canon([opts?.toolCallId, opts?.messages])}`)
        o.onExecEnd?.(rec)
        if (t.kind === 'throwErr' || t.kind === 'rejectErr') throw new Error(`boom ${t.name}`)
        if (t.kind === 'throwStr') throw 'plain boom'
        if (t.kind === 'tell') { opts.messages.push({ content: `told by ${t.name}`, role: 'user' }); return opts.messages.length }
        if (t.kind === 'push') { input.list.push(t.name); return `seen ${input.list.length}` }
        if (t.kind === 'mutate') { try { input.hacked = 1 } catch {} return 'mutated' }
        return (RESULTS[t.kind ?? 'echo'] ?? ODD_RESULTS[t.kind])(t.name, input)
      }
      if (t.mode === 'sync' || t.kind === 'throwErr') return produce()
      if (t.mode === 'async') return (async () => produce())()
      return later(env, t.mode, `tool:${rec.id}`, produce)
    },
    function: { name: t.name, parameters: { properties: { x: { type: 'string' } }, type: 'object' }, ...(t.description !== undefined ? { description: t.description } : {}), ...(t.strict !== undefined ? { strict: t.strict } : {}) },
    type: 'function',
  }
  if (t.validate) {
    tool.validate = (input) => {
      obs.validations.push({ input: snapshot(input), name: t.name })
      env.log('validate', t.name, input)
      if (t.validate === 'throw') throw new Error('validator crashed')
      const out = validatorOutcome(t.validate, input)
      return /Async$/.test(t.validate) ? later(env, t.mode, `validate:${t.name}`, () => out) : out
    }
  }
  return t.form === 'class' ? t.validate ? new OwnValidatedTool(tool) : new OwnTool(tool) : tool
})
export const wireTools = tools => tools?.map(t => ({ function: { name: t.name, parameters: { properties: { x: { type: 'string' } }, type: 'object' }, ...(t.description !== undefined ? { description: t.description } : {}), ...(t.strict !== undefined ? { strict: t.strict } : {}) }, type: 'function' }))

export const snapshot = (v) => { if (v === undefined) return undefined; try { return structuredClone(v) } catch { return JSON.parse(JSON.stringify(v)) } }

/** hook behaviours: pure part shared by driver and model. spec is {k, async?} or string */
const hk = s => typeof s === 'string' ? s : s?.k
export const preOutcome = (spec, call) => {
  switch (hk(spec)) {
    case 'args': return { ...call, args: '{"x":"pre"}' }
    case 'badargs': return { ...call, args: '{oops' }
    case 'name': return { ...call, toolName: 'other' }
    case 'noname': return { ...call, toolName: 'nope' }
    case 'result': return { args: { pre: 1 }, result: { from: 'pre' }, toolCallId: call.toolCallId, toolName: call.toolName }
    case 'nullresult': return { args: null, result: null, toolCallId: call.toolCallId, toolName: call.toolName }
    case 'falsyresult': return { args: { pre: 1 }, result: call.toolCallId === 'c1' ? 0 : false, toolCallId: call.toolCallId, toolName: call.toolName }
    case 'emptyresult': return { args: '', result: '', toolCallId: call.toolCallId, toolName: call.toolName }
    case 'strresult': return { args: {}, result: 'pre-text', toolCallId: call.toolCallId, toolName: call.toolName }
    case 'badId': return { ...call, toolCallId: `${call.toolCallId}x` }
    case 'badIdResult': return { args: {}, result: 'r', toolCallId: 'zzz', toolName: call.toolName }
    case 'null': return null
    default: return undefined
  }
}
export const postOutcome = (spec, res) => {
  switch (hk(spec)) {
    case 'replace': return { ...res, result: `post(${canon(res.result)})` }
    case 'obj': return { ...res, args: 'post-args', result: { replaced: true } }
    case 'nulls': return { args: null, result: null, toolCallId: res.toolCallId, toolName: res.toolName }
    case 'fresh': return { args: 'fresh', result: 'fresh text', toolCallId: res.toolCallId, toolName: `${res.toolName}!` }
    case 'badId': return { ...res, toolCallId: `${res.toolCallId}x` }
    default: return undefined
  }
}
const appliesTo = (spec, id) => typeof spec === 'string' || spec?.only === undefined || spec.only === id
export const makePre = (env, spec, obs) => spec === undefined ? undefined : (call, opts) => {
  obs.pre.push({ call: snapshot(call), id: opts?.toolCallId, messages: snapshot(opts?.messages), signal: opts?.abortSignal })
  env.log('pre', call.toolCallId)
  const go = () => { if (hk(spec) === 'throw') throw new Error('pre failed'); if (hk(spec) === 'throwStr') throw 'pre str'; return preOutcome(spec, call) }
  if (!appliesTo(spec, call.toolCallId)) return undefined
  return spec.async ? later(env, spec.async, `pre:${call.toolCallId}`, go) : go()
}
export const makePost = (env, spec, obs) => spec === undefined ? undefined : (res, opts) => {
  obs.post.push({ id: opts?.toolCallId, messages: snapshot(opts?.messages), res: snapshot(res), signal: opts?.abortSignal })
  env.log('post', res.toolCallId)
  const go = () => { if (hk(spec) === 'throw') throw new Error('post failed'); return postOutcome(spec, res) }
  if (!appliesTo(spec, res.toolCallId)) return undefined
  return spec.async ? later(env, spec.async, `post:${res.toolCallId}`, go) : go()
}

/** reference model of one tool call. -> {call, result, content, executed, input, fatal, preSeen, postSeen, validated} */
export const modelTool = (call, tools, pre, post, proto = 'chat') => {
  const out = { executed: false, postSeen: undefined, validated: false }
  if (call.name == null) return { ...out, fatal: 'missing_name' }
  if (call.args == null) return { ...out, fatal: 'missing_arguments' }
  let cc = { args: call.args, toolCallId: call.id, toolCallType: 'function', toolName: call.name }
  const err = (args, msg, c = cc) => ({ args, isError: true, result: `Tool "${c.toolName}" execution failed: ${msg}`, toolCallId: c.toolCallId, toolName: c.toolName })
  let res
  if (pre !== undefined && appliesTo(pre, call.id)) {
    if (hk(pre) === 'throw') res = err(cc.args, 'pre failed')
    else if (hk(pre) === 'throwStr') res = err(cc.args, 'pre str')
    else {
      const p = preOutcome(pre, cc)
      if (p) {
        if (p.toolCallId !== cc.toolCallId) return { ...out, fatal: 'tool_call_id_mismatch' }
        if ('result' in p) res = p
        else cc = p
      }
    }
  }
  if (!res) {
    const tool = tools?.find(t => t.name === cc.toolName)
    if (!tool) res = err(cc.args, null)
    else {
      let input; let ok = true
      const raw = cc.args.trim() === '' ? '{}' : cc.args
      try { input = JSON.parse(raw) } catch { ok = false; res = err(cc.args, null) }
      if (ok && tool.validate) {
        out.validated = true
        if (tool.validate === 'throw') { ok = false; res = err(cc.args, 'validator crashed') }
        else {
          const v = validatorOutcome(tool.validate, input)
          if (v.issues) { ok = false; res = err(input, null) }
          else input = v.value
        }
      }
      if (ok) {
        out.executed = true; out.input = input
        const k = tool.kind ?? 'echo'
        if (k === 'throwErr' || k === 'rejectErr') res = err(input, `boom ${tool.name}`)
        else if (k === 'throwStr') res = err(input, 'plain boom')
        else if (k === 'push') res = { args: { ...input, list: [...input.list, tool.name] }, result: `seen ${input.list.length + 1}`, toolCallId: cc.toolCallId, toolName: cc.toolName }
        else if (k === 'mutate') res = { args: input !== null && typeof input === 'object' && !Array.isArray(input) ? { ...input, hacked: 1 } : input, result: 'mutated', toolCallId: cc.toolCallId, toolName: cc.toolName }
        else res = { args: input, result: RESULTS[k](tool.name, input), toolCallId: cc.toolCallId, toolName: cc.toolName }
        if (post !== undefined) {
          out.postSeen = res
          if (appliesTo(post, call.id)) {
            if (hk(post) === 'throw') res = err(res.args, 'post failed', res)
            else {
              const p = postOutcome(post, res)
              if (p) { if (p.toolCallId !== res.toolCallId) return { ...out, fatal: 'tool_call_id_mismatch' }; res = p }
            }
          }
        }
      }
    }
  }
  return { ...out, call: cc, content: serialise(res.result, proto), result: res }
}
/** messages of unknown-tool/parse/validation failures are free text: only their prefix is specified */
export const sameResult = (got, want) => {
  if (want.isError && /failed: null$/.test(String(want.result))) {
    const prefix = String(want.result).replace(/null$/, '')
    return typeof got?.result === 'string' && got.result.startsWith(prefix) && got.result.length > prefix.length && canon({ ...got, result: 0 }) === canon({ ...want, result: 0 })
  }
  return canon(got) === canon(want)
}
export const sameContent = (got, want) => {
  const m = typeof want === 'string' && want.match(/^(Tool ".*" execution failed: )null$/s)
  if (m) return typeof got === 'string' && got.startsWith(m[1]) && got.length > m[1].length
  return canon(got) === canon(want)
}

// ---------------------------------------------------------------- stop conditions and prepareStep
export const stopFn = (spec) => {
  if (spec === undefined) return undefined
  switch (spec.k) {
    case 'never': return () => false
    case 'always': return () => true
    case 'count': return ({ steps }) => steps.length >= spec.n
    case 'exact': return ({ steps }) => steps.length === spec.n
    case 'tool': return ({ step }) => step.toolCalls.some(c => c.toolName === spec.v)
    case 'finish': return ({ step }) => step.finishReason === spec.v
    case 'text': return ({ step }) => (step.text ?? '').includes(spec.v)
    case 'input': return ({ input }) => input.length >= spec.n
    case 'value': return () => spec.v
    case 'prevtool': return ({ steps }) => steps.length > 1 && steps[steps.length - 2].toolResults.some(r => r.toolName === spec.v)
    default: throw new Error(spec.k)
  }
}
/** prepareStep behaviours. Pure part: the override for step n */
export const prepOverride = (spec, n, input) => {
  const o = spec?.per ? (spec.per[n] ?? {}) : (spec ?? {})
  const out = {}
  if (o.model !== undefined) out.model = o.model
  if (o.toolChoice !== undefined) out.toolChoice = o.toolChoice
  if (o.input === 'last') out.input = input.slice(-1)
  if (o.input === 'prefix') out.input = [{ content: `sys${n}`, role: 'system' }, ...input]
  if (o.input === 'empty') out.input = []
  return out
}

// ---------------------------------------------------------------- reference model of the loops
/** proto: 'gen' | 'stream' | 'resp' */
export const simulate = (s, proto) => {
  const pk = proto === 'resp' ? 'resp' : 'chat'
  const transcript = proto === 'resp'
    ? (typeof s.input === 'string' ? [{ content: s.input, role: 'user', type: 'message' }] : clone(s.input ?? toRespInput(s.messages)))
    : clone(s.messages)
  const out = { requests: [], stops: [], preps: [], steps: [], execs: [], pre: [], post: [], validations: [], tools: [], turnsUsed: 0, fatal: undefined }
  let total
  const stop = stopFn(s.stop) ?? (({ steps }) => steps.length >= 1)
  for (let n = 0; ; n++) {
    if (n > 400) throw new Error('model: runaway')
    let reqInput = transcript; let model = s.model ?? 'm'; let toolChoice = s.toolChoice
    if (s.prep) {
      out.preps.push({ input: clone(transcript), model: s.model ?? 'm', stepNumber: n, steps: snapshot(out.steps) })
      const o = prepOverride(s.prep, n, transcript)
      if (o.input) reqInput = o.input
      model = o.model ?? model
      toolChoice = o.toolChoice ?? toolChoice
    }
    out.requests.push({ input: clone(reqInput), model, toolChoice })
    const t = s.turns[n] ?? { text: 'end', usage: [1, 1, 2] }
    out.turnsUsed = n + 1
    let calls = t.calls ?? []
    let step
    let stepUsage = proto === 'gen' ? usageObj(t.usage ?? [1, 2, 3]) : usageObj(t.usage)
    if (proto === 'gen') {
      const m = assistantMessage(t)
      transcript.push(m)
      const text = Array.isArray(m.content) ? m.content.filter(p => p.type === 'text').map(p => p.text).join('\n') : m.content
      step = { finishReason: finishOf(t), text, toolCalls: calls.map(toCompletion), toolResults: [], usage: stepUsage }
      out.reasoningText = t.reasoning
    }
    else if (proto === 'stream') {
      const f = foldChunks(streamChunks(t))
      calls = f.calls
      stepUsage = usageFromWire(f.usage)
      const m = { content: f.text, role: 'assistant' }
      if (f.reasoning !== undefined) m[f.rf] = f.reasoning
      if (calls.length) m.tool_calls = calls.map(wireCall)
      transcript.push(m)
      step = { finishReason: f.finish ?? 'other', text: f.text, toolCalls: calls.map(toCompletion), toolResults: [], usage: stepUsage }
    }
    else {
      transcript.push(...respItems(t, n))
      step = { finishReason: calls.length ? 'tool-calls' : 'stop', text: t.text ? t.text : undefined, toolCalls: calls.map(toCompletion), toolResults: [], usage: stepUsage }
    }
    if (stepUsage) total = total ? { inputTokens: total.inputTokens + stepUsage.inputTokens, outputTokens: total.outputTokens + stepUsage.outputTokens, totalTokens: total.totalTokens + stepUsage.totalTokens } : { ...stepUsage }
    const ctx = { input: transcript, step, steps: [...out.steps, step] }
    out.stops.push(snapshot(ctx))
    const st = stop(ctx)
    const atCalls = clone(transcript)
    if (!st && calls.length) {
      const rs = calls.map((c0) => {
        const c = c0
        const r = modelTool(c, s.tools, s.pre, s.post, pk)
        if (s.pre !== undefined && c.name != null && c.args != null) out.pre.push({ call: { args: c.args, toolCallId: c.id, toolCallType: 'function', toolName: c.name }, id: c.id, messages: proto === 'resp' ? [] : atCalls })
        if (r.executed) out.execs.push({ id: c.id, input: r.input, messages: proto === 'resp' ? [] : atCalls, name: r.call?.toolName ?? c.name, step: n })
        if (r.postSeen) out.post.push({ id: c.id, messages: proto === 'resp' ? [] : atCalls, res: r.postSeen })
        return r
      })
      const f = rs.find(r => r.fatal)
      if (f) { out.fatal = { fatals: rs.filter(r => r.fatal).map(r => r.fatal), step: n }; out.transcript = transcript; out.totalUsage = total; return out }
      step.toolCalls = rs.map(r => r.call)
      step.toolResults = rs.map(r => r.result)
      for (const [i, r] of rs.entries()) transcript.push(proto === 'resp' ? { call_id: calls[i].id, output: r.content, status: 'completed', type: 'function_call_output' } : { content: r.content, role: 'tool', tool_call_id: r.call.toolCallId })
    }
    out.steps.push(step)
    if (st || !calls.length) break
  }
  out.transcript = transcript
  out.totalUsage = total
  out.usage = out.steps.at(-1)?.usage
  return out
}
export const toRespInput = messages => messages.map(m => ({ content: m.content, role: m.role, type: 'message' }))

// ---------------------------------------------------------------- driver
export const newObs = () => ({ clock: 0, events: [], execs: [], finish: [], post: [], pre: [], preps: [], requests: [], stepsSeen: [], stops: [], validations: [] })

/** Builds the options and starts one call. proto gen|stream|resp. Returns a handle with obs, outputs. */
export const startCall = (env, s, proto, o = {}) => {
  const lib = o.lib ?? (s.traced ? env.instantiate(env.factories.telemetry).telemetry : env.lib)
  const obs = o.obs ?? newObs()
  const tools = o.tools ?? makeTools(env, s.tools, obs, o)
  const h = { obs, proto, tools }
  const base = o.base ?? `http://srv${o.tag ?? ''}/v1/`
  let stepIdx = 0
  const server = o.server ?? ((rec) => {
    const n = stepIdx++
    const t = s.turns[n] ?? { text: 'end', usage: [1, 1, 2] }
    if (t.answer) return typeof t.answer === 'function' ? t.answer(rec) : t.answer
    if (proto === 'gen') return { auto: true, json: genBody(t) }
    const text = proto === 'stream' ? sseText(streamChunks(t), { eol: s.eol }) : respSse(respEvents(t, n), { eol: s.eol })
    const chunks = o.chunking ? o.chunking(text, n) : [text]
    return { auto: o.autoBody ?? true, chunks, headers: { 'content-type': 'text/event-stream' } }
  })
  const fetch = (input, init) => {
    const p = env.fetchWith(server, input, init, rec => obs.requests.push(rec))
    return p
  }
  const opts = {
    baseURL: base,
    fetch,
    model: s.model ?? 'm',
    ...(proto === 'resp' ? { input: s.input !== undefined ? (typeof s.input === 'string' ? s.input : clone(s.input)) : clone(toRespInput(s.messages)) } : { messages: o.messages ?? clone(s.messages) }),
    ...(tools ? { tools } : {}),
    ...(s.toolChoice !== undefined ? { toolChoice: s.toolChoice } : {}),
    ...(s.options ?? {}),
  }
  const sf = stopFn(s.stop)
  if (sf) opts.stopWhen = (c) => { obs.stops.push({ input: snapshot(c.input), step: snapshot(c.step), steps: snapshot(c.steps), at: obs.clock++ }); env.log('stop?', String(c.steps.length)); o.onStop?.(c); return sf(c) }
  const pre = makePre(env, s.pre, obs); const post = makePost(env, s.post, obs)
  if (pre) opts.preToolCall = pre
  if (post) opts.postToolCall = post
  if (s.prep) {
    opts.prepareStep = (c) => {
      obs.preps.push(snapshot(c))
      env.log('prep', String(c.stepNumber))
      o.onPrep?.(c)
      const r = snapshot(prepOverride(s.prep, c.stepNumber, c.input))
      const spec = s.prep.per ? (s.prep.per[c.stepNumber] ?? {}) : s.prep
      if (spec.mutate) {
        // a hostile but legal callback: scribble over everything it was given
        try { c.input.push({ content: 'scribble', role: 'user' }); c.input[0].content = 'SCRIBBLE'; c.input[0].hacked = true } catch {}
        for (const m of c.input) { try { for (const t of m.tool_calls ?? []) { t.function.arguments = '"SCRIBBLE"'; t.id = 'SCRIBBLE' } if (Array.isArray(m.content)) { for (const p of m.content) p.type = 'SCRIBBLE' } } catch {} }
        for (const st of c.steps) { try { for (const t of [...st.toolCalls, ...st.toolResults]) { t.args = 'SCRIBBLE'; t.toolName = 'SCRIBBLE'; if (t.result !== null && typeof t.result === 'object') t.result.hacked = true; t.result = 'SCRIBBLE' } st.text = 'SCRIBBLE'; st.toolCalls.push('x'); st.toolResults.length = 0; if (st.usage) st.usage.totalTokens = -1 } catch {} }
        try { c.steps.push('x') } catch {}
      }
      let ret = Object.keys(r).length ? snapshot(r) : (spec.ret === 'undefined' ? undefined : {})
      // editing and returning its own argument is the most common form
      if (spec.share && r.input) { c.input.splice(0, c.input.length, ...r.input); ret = { ...ret, input: c.input } }
      if (spec.nulls) ret = { input: undefined, model: undefined, toolChoice: undefined, ...ret }
      obs.prepReturned = [...(obs.prepReturned ?? []), ret]
      if (spec.later) obs.laterMutations = [...(obs.laterMutations ?? []), ret]
      return spec.async ? later(env, spec.async, `prep:${c.stepNumber}`, () => ret) : ret
    }
  }
  opts.onStepFinish = (st) => { obs.stepsSeen.push(snapshot(st)); obs.stepRefs = [...(obs.stepRefs ?? []), st]; env.log('onStepFinish', st); return o.onStepFinish?.(st) }
  if (proto !== 'gen') {
    opts.onFinish = (st) => { obs.finish.push(snapshot(st)); env.log('onFinish', st); return o.onFinish?.(st) }
    opts.onEvent = (e) => { obs.events.push(snapshot(e)); return o.onEvent?.(e) }
  }
  if (o.signal) opts.abortSignal = o.signal
  if (o.patch) o.patch(opts)
  h.opts = opts
  if (proto === 'gen') { h.promise = env.watch(lib.generateText(opts), `${o.tag ?? ''}gen`) }
  else {
    const attach = (r) => {
      h.result = r
      if (!o.noConsume) {
        h.text = env.collect(r.textStream, `${o.tag ?? ''}text`)
        h.reasoning = env.collect(r.reasoningTextStream, `${o.tag ?? ''}reasoning`)
        h.full = env.collect(r.fullStream, `${o.tag ?? ''}full`, snapshot)
        h.eventStream = env.collect(r.eventStream, `${o.tag ?? ''}events`, snapshot)
      }
      h.transcript = env.watch(proto === 'stream' ? r.messages : r.input, `${o.tag ?? ''}transcript`)
      h.steps = env.watch(r.steps, `${o.tag ?? ''}steps`)
      h.usage = env.watch(r.usage, `${o.tag ?? ''}usage`)
      h.totalUsage = env.watch(r.totalUsage, `${o.tag ?? ''}totalUsage`)
      o.onResult?.(r)
    }
    // a call that gives its result later (lib.later)
    if (lib.later) h.call = env.watch(lib.later(opts).then((r) => { attach(r) }), `${o.tag ?? ''}call`)
    else attach(proto === 'stream' ? lib.streamText(opts) : lib.responses(opts))
  }
  return h
}

/** uniform view of the finished call: {ok, error, transcript, steps, usage, totalUsage} */
export const outcome = (env, h) => {
  if (h.proto === 'gen') {
    env.check(h.promise.settled, 'the call never settles')
    if (!h.promise.ok) return { error: h.promise.error, ok: false }
    const v = h.promise.value
    return { ok: true, steps: v.steps, totalUsage: v.totalUsage, transcript: v.messages, usage: v.usage, value: v }
  }
  for (const k of ['transcript', 'steps', 'usage', 'totalUsage']) env.check(h[k].settled, `the ${k} promise never settles`)
  if (!h.steps.ok) return { error: h.steps.error, ok: false }
  for (const k of ['transcript', 'steps', 'usage', 'totalUsage']) env.check(h[k].ok, `the ${k} promise fails although steps resolved`)
  return { ok: true, steps: h.steps.value, totalUsage: h.totalUsage.value, transcript: h.transcript.value, usage: h.usage.value }
}

/** compare a transcript, tolerating only the free text of error results and extra index keys on streamed calls */
export const normMessage = (m) => {
  if (m === null || typeof m !== 'object') return m
  const c = { ...m }
  if (Array.isArray(c.tool_calls)) c.tool_calls = c.tool_calls.map((t) => { if (t === null || typeof t !== 'object') return t; const { index, ...r } = t; return r })
  if (c.type === 'function_call_output') delete c.id
  return c
}
export const sameTranscript = (got, want) => {
  if (!Array.isArray(got) || got.length !== want.length) return false
  return want.every((w, i) => {
    const g = normMessage(got[i]); const x = normMessage(w)
    if (x.role === 'tool' && g?.role === 'tool') return sameContent(g.content, x.content) && canon({ ...g, content: 0 }) === canon({ ...x, content: 0 })
    if (x.type === 'function_call_output' && g?.type === x.type) return sameContent(g.output, x.output) && canon({ ...g, output: 0 }) === canon({ ...x, output: 0 })
    return canon(JSON.parse(JSON.stringify(g))) === canon(JSON.parse(JSON.stringify(x)))
  })
}
export const sameStep = (got, want, { usage = true } = {}) => {
  const { toolResults: gr, usage: gu, ...g } = got ?? {}
  const { toolResults: wr, usage: wu, ...w } = want
  if (canon(g) !== canon(w)) return false
  if (usage && canon(gu) !== canon(wu)) return false
  return Array.isArray(gr) && gr.length === wr.length && wr.every((x, i) => sameResult(gr[i], x))
}
export const requestInput = (rec, proto) => proto === 'resp' ? rec.json?.input : rec.json?.messages
