import { makePost, makePre, makeTools, modelTool, newObs, outcome, sameContent, sameResult, sameStep, sameTranscript, simulate, snapshot, startCall } from '../lib/chat.mjs'
import { MESSAGES } from '../lib/families.mjs'
import { canon, clone, product } from '../lib/util.mjs'

const PRES = [undefined, 'void', 'null', 'args', 'badargs', 'name', 'noname', 'result', 'strresult', 'nullresult', 'falsyresult', 'emptyresult', 'throw', 'throwStr', 'badId', 'badIdResult']
const POSTS = [undefined, 'void', 'replace', 'obj', 'nulls', 'fresh', 'throw', 'badId']
const NAMES = ['t', 'ghost', null]
const ARGS = ['{"x":"1"}', '{"constructor":"x","toString":1,"prototype":[{"constructor":null}],"x":"\\u0000"}', '', ' \n ', '{bad', null, '{"__proto__":{"a":"b"},"x":{"__proto__":null}}', '[1]', 'null', '"s"', ' {"x":1} ']
// names that differ little
const NEAR = ['t', 'T', 't ', 'tt', 't_t', 'constructor']
const VALS = [undefined, 'value', 'valueAsync', 'strip', 'undef', 'issues', 'issuesAsync', 'throw']
const KINDS = [['echo', 'sync'], ['obj', 'defer'], ['throwErr', 'sync'], ['rejectErr', 'async'], ['throwStr', 'defer'], ['mutate', 'sync'], ['parts', 'async'], ['empty', 'sync'], ['obj', 'then'], ['rejectErr', 'then']]
const ABORTS = ['before', 'pre', 'validate', 'execute', 'post']

export default {
  id: 'C04',
  bundle: 'small', bundles: ['core'],
  traced: { only: s => s.turns !== undefined, quick: 1, thorough: 1 },
  dev: { quick: 1, thorough: 2 },
  bounds: {
    quick: 'executeTool: 16 pre-hooks x 3 names x 11 argument texts x 8 validators x 10 tool behaviours x 8 post-hooks (pairwise-complete product over those that can interact), 5 abort instants; the three loops with 1-2 calls per step and every hook kind, calls by 13 names close to those of 6 tools',
    thorough: 'full product with asynchronous variants of both hooks',
  },
  * scenarios(tier) {
    const full = tier === 'thorough'
    for (const pre of PRES) for (const [name, args, val] of product([NAMES, ARGS, VALS])) {
      // dimensions that cannot be reached for this prefix are not multiplied
      if (name === null || args === null) { yield { d: 1, args, name, pre }; continue }
      const reaches = !['result', 'strresult', 'nullresult', 'falsyresult', 'emptyresult', 'throw', 'throwStr', 'badId', 'badIdResult', 'noname'].includes(pre)
      if (!reaches && val !== undefined && !full) continue
      for (const [kind, mode] of (reaches ? KINDS : KINDS.slice(0, 2))) for (const post of POSTS) {
        yield { d: 1, args, kind, mode, name, post, pre, val }
        if (full && pre && post) for (const [a, b] of [[true, true], [true, false], [false, true]]) yield { d: 1, args, kind, mode, name, post: b ? { async: true, k: post } : post, pre: a ? { async: true, k: pre } : pre, val }
      }
    }
    for (const pre of PRES.slice(1)) for (const post of POSTS.slice(1)) for (const val of ['valueAsync', 'issuesAsync', undefined]) yield { d: 1, args: '{"x":"1"}', kind: 'echo', mode: 'defer', name: 't', post: { async: true, k: post }, pre: { async: true, k: pre }, val }
    for (const abort of ABORTS) for (const [pre, post, val, k, args, name] of product([[undefined, 'void', 'args', 'throw', 'strresult', 'name'], [undefined, 'void', 'replace', 'throw'], [undefined, 'value', 'issues', 'throw'], KINDS.slice(0, 5), ['{"x":"1"}', '{bad'], ['t', 'ghost']])) {
      if (abort === 'pre' && pre === undefined) continue
      if (abort === 'validate' && val === undefined) continue
      if (abort === 'post' && post === undefined) continue
      yield { d: 1, abort, args, kind: k[0], mode: k[1], name, post, pre, val }
    }
    // hooks, validators and tools that return another library's promises
    for (const [pre, post] of product([PRES, POSTS])) if (pre || post) for (const val of [undefined, 'valueAsync', 'issuesAsync']) yield { d: 1, args: '{"x":"1"}', kind: 'echo', mode: 'then', name: 't', post: post && { async: 'then', k: post }, pre: pre && { async: 'then', k: pre }, val }
    // through the loops
    const tools = [{ kind: 'echo', mode: 'sync', name: 't', validate: 'valueAsync' }, { kind: 'obj', name: 'other' }, { kind: 'rejectErr', name: 'bad' }, { kind: 'echo', name: 'strict', validate: 'issues' }, { kind: 'obj', mode: 'then', name: 'foreign', validate: 'valueAsync' }]
    const calls = [{ args: '{"x":"1"}', id: 'c1', name: 't' }, { args: ' ', id: 'c2', name: 'other' }, { args: '{bad', id: 'c3', name: 'other' }, { args: '{}', id: 'c4', name: 'ghost' }, { args: '{}', id: 'c5', name: 'bad' }, { args: '{}', id: 'c6', name: 'strict' }, { args: '{}', id: 'c9', name: 'foreign' }]
    const fatal = [{ args: undefined, id: 'c7', name: 't' }, { args: '{}', id: 'c8', name: undefined }]
    for (const proto of ['gen', 'stream', 'resp']) {
      const mk = (cs, extra) => ({ messages: MESSAGES.history, proto, stop: { k: 'never' }, tools, turns: [{ calls: cs, text: 'go' }, { text: 'end' }], ...extra })
      for (const pre of PRES) for (const post of POSTS) for (const c of calls) {
        yield mk([c], { post, pre })
        for (const c2 of calls) if (c2 !== c && (full || (calls.indexOf(c2) === (calls.indexOf(c) + 1) % calls.length))) yield mk([c, c2], { dev: full ? 1 : 0, post: post && { k: post, only: c2.id }, pre: pre && { k: pre, only: c.id } })
      }
      for (const [pre, post] of product([['void', 'args', 'strresult', 'throw', 'badId'], ['void', 'obj', 'throw', 'badId']])) yield mk([calls[0], calls.at(-1)], { dev: 0, post: { async: 'then', k: post }, pre: { async: 'then', k: pre } })
      // a streamed call without arguments has the empty ones
      for (const f of proto === 'stream' ? fatal.slice(1) : fatal) for (const c of calls) for (const cs of [[f], [c, f], [f, c]]) yield mk(cs, {})
      // a call means the tool of exactly that name
      for (const order of [NEAR, [...NEAR].reverse()]) for (const name of [...NEAR, 'TT', ' t', 't.', 'T ', 'tT', 'toString', '']) {
        yield mk([{ args: '{"x":"1"}', id: 'n1', name }, { args: '{}', id: 'n2', name: 'tt' }], { dev: 0, tools: order.map(name => ({ kind: 'echo', mode: 'sync', name })) })
        if (NEAR.includes(name)) yield mk([{ args: '{}', id: 'n1', name }], { dev: 0, tools: order.filter(x => x !== name).map(name => ({ kind: 'echo', mode: 'sync', name })) })
      }
      // tools that are instances of a class
      for (const c of calls) for (const pre of [undefined, 'args', 'name']) yield mk([c], { dev: 0, pre, tools: tools.map(t => ({ ...t, form: 'class' })) })
      // wrong-id hooks in a later step must fail the run too
      for (const [pre, post] of [['badId'], ['badIdResult'], [undefined, 'badId']]) yield { ...mk([calls[0]], {}), post: post && { k: post, only: 'late' }, pre: pre && { k: pre, only: 'late' }, turns: [{ calls: [calls[0]], text: 'go' }, { calls: [{ args: '{}', id: 'late', name: 'other' }] }, { text: 'end' }] }
    }
  },
  async execute(env, s) { return s.d ? direct(env, s) : loop(env, s) },
}

const toolSpecs = s => [{ kind: s.kind, mode: s.mode, name: 't', validate: s.val }, { kind: 'echo', mode: 'sync', name: 'other' }]

const direct = async (env, s) => {
  const tools = toolSpecs(s)
  const ctl = new AbortController()
  const obs = newObs()
  const A = 'This operation was aborted'
  const real = makeTools(env, tools, obs, { onExec: () => { if (s.abort === 'execute') ctl.abort() } })
  if (s.abort === 'validate') { const v = real[0].validate; real[0].validate = (x) => { ctl.abort(); return v(x) } }
  const pre0 = makePre(env, s.pre, obs); const post0 = makePost(env, s.post, obs)
  const pre = pre0 && ((c, o) => { if (s.abort === 'pre') ctl.abort(); return pre0(c, o) })
  const post = post0 && ((c, o) => { if (s.abort === 'post') ctl.abort(); return post0(c, o) })
  const messages = clone(MESSAGES.history)
  const toolCall = { function: { ...(s.args === null ? {} : { arguments: s.args }), ...(s.name === null ? {} : { name: s.name }) }, id: 'id1', type: 'function' }
  if (s.abort === 'before') ctl.abort()
  const before = canon([messages, toolCall])
  const w = env.watch(env.lib.executeTool({ abortSignal: ctl.signal, messages, postToolCall: post, preToolCall: pre, toolCall, tools: real }), 'result')
  await env.run()
  env.check(w.settled, 'the tool call never settles')
  const m = modelTool({ args: s.args, id: 'id1', name: s.name }, tools, s.pre, s.post)
  env.check(canon([messages, toolCall]) === before, 'the call or the transcript was modified')
  const pk = typeof s.pre === 'object' ? s.pre.k : s.pre
  if (s.abort) {
    // derive the abort variant from the plain outcome
    const cc = pk === 'args' ? { args: '{"x":"pre"}', name: s.name } : pk === 'name' ? { args: s.args, name: 'other' } : { args: s.args, name: s.name }
    const err = (args, name = cc.name) => ({ args, isError: true, result: `Tool "${name}" execution failed: ${A}`, toolCallId: 'id1', toolName: name })
    let want; let executed = false
    if (pk === 'strresult') want = m.result
    else if (pk === 'throw') want = { ...m.result, ...(s.abort === 'before' || s.abort === 'pre' ? err(s.args, s.name) : {}) }
    else {
      const early = s.abort === 'before' || s.abort === 'pre'
      const known = cc.name === 't' || cc.name === 'other'
      const validated = cc.name === 't' && s.val && cc.args !== '{bad'
      const aborted = early || (s.abort === 'validate' && validated)
      if (!known || cc.args === '{bad') want = aborted ? err(cc.args) : m.result
      else if (validated && s.val === 'throw') want = aborted ? err(cc.args) : m.result
      else if (validated && s.val === 'issues') want = aborted ? err(JSON.parse(cc.args)) : m.result
      else if (aborted) want = err(m.input)
      else {
        executed = true
        const during = s.abort === 'execute'
        const k = cc.name === 't' ? s.kind : 'echo'
        const fails = k === 'throwErr' || k === 'rejectErr' || k === 'throwStr'
        let res = during && fails ? err(m.input) : modelTool({ args: s.args, id: 'id1', name: s.name }, tools, s.pre, undefined).result
        if (s.post !== undefined) {
          if (s.post === 'throw') res = during || s.abort === 'post' ? { args: res.args, isError: true, result: `Tool "${cc.name}" execution failed: ${A}`, toolCallId: 'id1', toolName: cc.name } : m.result
          else if (s.post === 'replace') res = { ...res, result: `post(${canon(res.result)})` }
        }
        want = res
      }
    }
    env.check(w.ok, `an aborted tool call must yield a result, failed with ${canon(w.error)}`)
    env.check(obs.execs.length === (executed ? 1 : 0), `tool executions: expected ${executed ? 1 : 0}, saw ${obs.execs.length}`)
    env.check(obs.post.length === (executed && s.post !== undefined ? 1 : 0), `post hook ran ${obs.post.length} times although executed=${executed}`)
    env.check(sameResult(w.value.completionToolResult, want), `result should be ${canon(want)}, was ${canon(w.value.completionToolResult)}`)
    for (const x of [...obs.execs, ...obs.pre, ...obs.post]) env.check(x.signal === ctl.signal, 'the abort signal is not passed on')
    return canon(w.value)
  }
  if (m.fatal) {
    env.check(!w.ok, `${m.fatal} must fail the call, gave ${canon(w.value)}`)
    env.expect(w.error?.name, 'InvalidToolCallError', 'error')
    env.expect(w.error?.reason, m.fatal, 'error reason')
    if (m.fatal === 'tool_call_id_mismatch') env.check(typeof w.error.toolCall?.toolCallId === 'string' && w.error.toolCall.toolCallId !== 'id1', `the error should tell the call it was given instead, tells ${canon(w.error.toolCall)}`)
    else env.expect(w.error.toolCall, toolCall, 'the call told by the error')
  }
  else {
    env.check(w.ok, `the tool call fails: ${canon(w.error)}`)
    env.check(sameResult(w.value.completionToolResult, m.result), `result should be ${canon(m.result)}, was ${canon(w.value.completionToolResult)}`)
    env.expect(w.value.completionToolCall, m.call, 'tool call')
    env.check(sameContent(w.value.result, m.content), `content should be ${canon(m.content)}, was ${canon(w.value.result)}`)
  }
  const callSeen = { args: s.args, toolCallId: 'id1', toolCallType: 'function', toolName: s.name }
  env.expect(obs.pre.map(p => [p.call, p.id, p.messages]), s.pre !== undefined && s.name !== null && s.args !== null ? [[callSeen, 'id1', messages]] : [], 'pre hook calls')
  env.expect(obs.execs.map(e => [e.name, e.input, e.id, e.messages]), m.executed ? [[m.call?.toolName ?? obs.execs[0]?.name, m.input, 'id1', messages]] : [], 'tool executions')
  env.check(obs.validations.length === (m.validated ? 1 : 0), `validator ran ${obs.validations.length} times, expected ${m.validated ? 1 : 0}`)
  env.check(obs.post.length === (m.postSeen ? 1 : 0), `post hook ran ${obs.post.length} times, expected ${m.postSeen ? 1 : 0}`)
  if (m.postSeen) env.check(sameResult(obs.post[0].res, m.postSeen) && obs.post[0].id === 'id1', `post hook should see ${canon(m.postSeen)}, saw ${canon(obs.post[0].res)}`)
  for (const x of [...obs.execs, ...obs.pre, ...obs.post]) env.check(x.signal === ctl.signal, 'the abort signal is not passed on')
  return canon([w.ok ? w.value : w.error?.reason, obs.execs.length])
}

const loop = async (env, s) => {
  env.lib = env.instantiate(env.factories.core)
  const { proto } = s
  const m = simulate(s, proto)
  const ctl = new AbortController()
  const h = startCall(env, s, proto, { signal: ctl.signal })
  await env.run()
  const r = outcome(env, h)
  const o = h.obs
  if (m.fatal) {
    env.check(!r.ok, `${m.fatal.fatals} must fail the run`)
    env.expect(r.error?.name, 'InvalidToolCallError', 'error')
    env.check(m.fatal.fatals.includes(r.error?.reason), `error reason should be one of ${m.fatal.fatals}, was ${r.error?.reason}`)
    env.check(o.requests.length === m.requests.length, 'a request was sent after a fatal tool call')
    return canon([r.error?.reason])
  }
  env.check(r.ok, `the call fails: ${canon(r.error)}`)
  const key = x => canon(x)
  env.expect(o.execs.map(e => [e.name, e.id, e.input]).map(key).sort(), m.execs.map(e => [e.name, e.id, e.input]).map(key).sort(), 'tools executed')
  for (const e of o.execs) {
    const w = m.execs.find(x => x.id === e.id)
    env.check(proto === 'resp' || sameTranscript(e.messages, w.messages), `tool ${e.id} should see messages ${canon(w.messages)}, saw ${canon(e.messages)}`)
  }
  env.expect(o.pre.map(p => [p.id, p.call]), m.pre.map(p => [p.id, p.call]), 'pre hook calls')
  env.expect(o.post.map(p => p.id).sort(), m.post.map(p => p.id).sort(), 'post hook calls')
  for (const p of o.post) { const w = m.post.find(x => x.id === p.id); env.check(sameResult(p.res, w.res), `post hook should see ${canon(w.res)}, saw ${canon(p.res)}`) }
  for (const x of [...o.execs, ...o.pre, ...o.post]) env.check(x.signal === ctl.signal, 'the abort signal is not passed on')
  m.steps.forEach((w, i) => env.check(sameStep({ ...r.steps[i], usage: 0 }, { ...w, usage: 0 }), `step ${i} should be ${canon(w)}, was ${canon(r.steps[i])}`))
  env.check(sameTranscript(r.transcript, m.transcript), `final transcript should be ${canon(m.transcript)}, was ${canon(r.transcript)}`)
  return canon(r.steps)
}
