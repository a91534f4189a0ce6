import { makeTools, modelTool, newObs, normMessage, sameContent, sseText, startCall, stopFn } from '../lib/chat.mjs'
import { TOOLS } from '../lib/families.mjs'
import { finished, ITEMS, respTurn } from '../lib/resp.mjs'
import { canon, clone, sequences } from '../lib/util.mjs'

const INPUTS = {
  empty: [], str: 'hello ü😀', strBlank: ' ', strEmpty: '', strFile: '\tdef f():\r\n\t\treturn 1\n\n', strLone: '\uFEFF a\uD83D\u00A0',
  history: [
    { content: [{ text: 'q', type: 'input_text' }, { detail: 'auto', image_url: 'http://i', type: 'input_image' }], role: 'user', type: 'message' },
    { encrypted_content: 'X', id: 'rs_old', summary: [], type: 'reasoning' },
    { arguments: '{}', call_id: 'old', name: 'gone', type: 'function_call' },
    { call_id: 'old', id: 'fco', output: 'done', type: 'function_call_output' },
    { id: 'ref_1', type: 'item_reference' },
    { content: 'be kind', role: 'developer', type: 'message' },
  ],
  user: [{ content: 'hi', role: 'user', type: 'message' }],
}
const FULL = { background: false, include: ['reasoning.encrypted_content'], instructions: 'be brief', maxOutputTokens: 7, maxToolCalls: 2, metadata: { someKey: 'v' }, parallelToolCalls: false, presencePenalty: 0, previousResponseId: 'r_0', promptCacheKey: 'p', reasoning: { effort: 'low', summary: 'auto' }, safetyIdentifier: 's', serviceTier: 'auto', store: false, streamOptions: { includeObfuscation: false }, temperature: 0, text: { format: { type: 'text' } }, toolChoice: 'auto', topLogprobs: 0, topP: 1, truncation: 'auto', frequencyPenalty: 1 }
const FULL_WIRE = { background: false, frequency_penalty: 1, include: ['reasoning.encrypted_content'], instructions: 'be brief', max_output_tokens: 7, max_tool_calls: 2, metadata: { someKey: 'v' }, parallel_tool_calls: false, presence_penalty: 0, previous_response_id: 'r_0', prompt_cache_key: 'p', reasoning: { effort: 'low', summary: 'auto' }, safety_identifier: 's', service_tier: 'auto', store: false, stream_options: { include_obfuscation: false }, temperature: 0, text: { format: { type: 'text' } }, tool_choice: 'auto', top_logprobs: 0, top_p: 1, truncation: 'auto' }
const KINDS = ['echo', 'obj', 'nested', 'parts', 'rfile', 'rimage', 'file', 'mixedfile', 'mixed', 'untyped', 'strings', 'nullitem', 'rparts', 'rmixed', 'near', 'caps', 'output', 'video', 'number', 'image', 'refused', 'proto', 'typed', 'audio', 'date', 'money', 'boxed', 'empty', 'json', 'unicode']

export default {
  id: 'C21',
  dev: { quick: 1, thorough: 3 },
  bounds: {
    quick: '8 inputs (strings with white space around them among them); 22 kinds of output items: every list of up to 2 of them in the first of two responses, lists of up to 3 of 6 kinds, pairs of responses; items finishing in list order or interleaved, failed and incomplete first responses; responses of up to 40 items, calls sharing an id; 5 caller inputs, 17 result kinds, hooks, 6 tool-definition shapes, the full option set; completion orders within 1 deviation',
    thorough: 'lists of up to 3 of 22 kinds; triples of responses; 3 deviations',
  },
  * scenarios(tier) {
    const T = tier === 'thorough'
    const ks = Object.keys(ITEMS)
    const core = ['reason', 'msg', 'callA', 'callB', 'search', 'compact']
    const fin = { items: ['msg'] }
    for (const input of Object.keys(INPUTS)) for (const items of [[], ['msg'], ['callA'], ['reason', 'callA', 'msg', 'callB'], ['vendor', 'callA']]) yield { input, turns: [{ items }, fin] }
    for (const items of sequences(ks, T ? 3 : 2, 1)) yield { dev: items.length > 2 ? 0 : 1, input: 'user', turns: [{ items }, fin] }
    for (const items of sequences(core, 3, 3)) yield { input: 'user', turns: [{ items }, fin] }
    for (const a of sequences(core, 2, 1)) for (const b of sequences(core, T ? 2 : 1, 1)) yield { dev: T ? 1 : 0, input: 'user', turns: [{ items: [...a, 'callA'] }, { items: [...b, 'callB'] }, fin] }
    for (const items of sequences(core, 2, 1)) for (const status of ['failed', 'incomplete']) yield { input: 'user', turns: [{ items: ['callA'] }, { items, status }] }
    for (const items of sequences(core, 3, 2)) yield { dev: 0, input: 'history', turns: [{ interleave: true, items }, fin] }
    for (const kind of KINDS) for (const mode of ['defer', 'sync', 'async']) yield { input: 'user', tools: [{ kind, mode, name: 'a' }, { name: 'b' }, { kind: 'obj', name: 'p' }], turns: [{ items: ['callA', 'callB', 'callA'] }, { items: ['callP'] }, fin] }
    for (const kind of ['throwErr', 'throwStr', 'rejectErr']) yield { input: 'user', tools: [{ kind, name: 'a' }, { name: 'b' }], turns: [{ items: ['callA', 'callB', 'callBad', 'callGhost'] }, fin] }
    for (const pre of [undefined, 'args', 'result', 'strresult', 'throw', 'name']) for (const post of [undefined, 'replace', 'obj', 'throw']) yield { input: 'user', post, pre, turns: [{ items: ['callA', 'reason', 'callB'] }, fin] }
    for (const stop of [undefined, { k: 'count', n: 1 }, { k: 'count', n: 2 }]) for (const a of core) yield { input: 'user', stop, turns: [{ items: [a, 'callA'] }, { items: ['callB'] }, fin] }
    for (const defs of [undefined, [], 'bare', 'full', 'blank', 'odd']) for (const items of [['msg'], ['callA']]) for (const options of [undefined, FULL]) yield { defs: defs ?? 'none', input: 'user', options, turns: [{ items }, fin] }
    // many items in one response, and calls that look alike
    for (const n of [12, 20, 40]) for (const of of [['callA'], ['callA', 'msg', 'callB'], ['reason', 'callTwin'], core]) yield { dev: 0, input: 'history', turns: [{ items: Array.from({ length: n }, (_, i) => of[i % of.length]) }, { items: ['callTwin', 'callA'] }, fin] }
    for (const ids of [undefined, 'same', 'none']) for (const items of sequences(['callTwin', 'callA', 'msg'], 3, 1)) yield { dev: 0, input: 'user', turns: [{ ids, items }, { ids, items: ['callTwin'] }, { ids, items }, fin] }
    // histories that grow
    for (const len of [4, T ? 12 : 8]) yield { dev: 0, input: 'history', turns: [...Array.from({ length: len }, (_, i) => ({ items: [core[i % 6], core[(i + 3) % 6], 'callA'] })), fin] }
    // item ids that repeat within or across responses, or are absent
    for (const ids of ['perResponse', 'same', 'none']) for (const a of [...sequences(core, 2, 1)]) for (const b of [['callB'], ['msg', 'callA']]) yield { dev: 0, input: 'history', turns: [{ ids, items: [...a, 'callA'] }, { ids, items: b }, { ids, items: ['msg'] }] }
    // overridden inputs are sent as overridden, the history keeps growing underneath
    for (const prep of [{ input: 'last' }, { input: 'prefix', mutate: true }, { mutate: true }]) yield { input: 'history', prep, turns: [{ items: ['reason', 'callA'] }, { items: ['search', 'callB'] }, fin] }
  },
  async execute(env, s) {
    const h0 = { obs: newObs() }
    const tools = s.tools ?? TOOLS
    const stopSpec = 'stop' in s ? s.stop : { k: 'never' }
    const turns = s.turns.map(respTurn)
    // ---- the history there must be
    const first = INPUTS[s.input]
    const given = typeof first === 'string' ? first : clone(first)
    const before = canon(given)
    const history = typeof first === 'string' ? [{ content: first, role: 'user', type: 'message' }] : clone(first)
    const wanted = []; const callLists = []
    const stop = stopFn(stopSpec)
    const steps = []
    for (const t of turns) {
      wanted.push(clone(history))
      history.push(...clone(finished(t)))
      const calls = finished(t).filter(x => x.type === 'function_call').map(x => ({ args: x.arguments, id: x.call_id, name: x.name }))
      const step = { finishReason: calls.length ? 'tool-calls' : 'stop', toolCalls: [], toolResults: [] }
      steps.push(step)
      if (t.status !== 'completed') break
      const halt = stop ? stop({ input: history, step, steps }) : steps.length >= 1
      if (halt || !calls.length) break
      const mtools = s.defs === 'none' || Array.isArray(s.defs) ? undefined : tools
      for (const c of calls) { const r = modelTool(c, mtools, s.pre, s.post, 'resp'); history.push({ call_id: c.id, output: r.content, status: 'completed', type: 'function_call_output' }) }
      callLists.push(calls)
    }
    const n0 = { k: 0 }
    const server = () => { const t = turns[n0.k++]; return { auto: true, chunks: [t ? sseText([...t.body.map(([e]) => e), t.end], {}) : ''], headers: { 'content-type': 'text/event-stream' } } }
    env.onRequest = () => { if (canon(given) !== before) env.fail('the caller\'s input was modified while the call was running') }
    const h = startCall(env, { ...s, messages: [], options: s.options, stop: stopSpec, tools: undefined, turns: [] }, 'resp', {
      patch: (o) => {
        o.input = given
        if (s.defs === 'none') delete o.tools
        else if (Array.isArray(s.defs)) o.tools = []
        else {
          o.tools = makeTools(env, tools, h0.obs, {})
          if (s.defs === 'bare') for (const t of o.tools) { delete t.function.description; delete t.function.strict }
          if (s.defs === 'blank') for (const t of o.tools) Object.assign(t.function, { description: '', parameters: {}, strict: true })
          if (s.defs === 'odd') for (const t of o.tools) Object.assign(t.function, { description: ' \n', parameters: { $defs: { x: {} }, additionalProperties: false, description: '', properties: {}, required: [], type: 'object' }, strict: undefined })
          if (s.defs === 'full') for (const t of o.tools) Object.assign(t.function, { description: 'does it', strict: false })
        }
        h0.tools = o.tools
      },
      server,
    })
    await env.run()
    for (const k of ['transcript', 'steps']) { env.check(h[k].settled, `the ${k} promise never settles`); env.check(h[k].ok, `the ${k} promise fails with ${canon(h[k].error)}`) }
    env.check(h.obs.requests.length === wanted.length, `expected ${wanted.length} requests, saw ${h.obs.requests.length}`)
    const sameHistory = (got, want, what) => {
      env.check(Array.isArray(got), `${what} is ${canon(got)}`)
      env.check(got.length === want.length, `${what}: ${want.length} items expected (${canon(want)}), got ${canon(got)}`)
      want.forEach((w, i) => {
        const g = normMessage(got[i]); const x = normMessage(w)
        const ok = x.type === 'function_call_output' && 'status' in x && !('id' in w) ? g?.type === x.type && sameContent(g.output, x.output) && canon({ ...g, output: 0 }) === canon({ ...x, output: 0 }) : canon(g) === canon(x)
        env.check(ok, `${what}, item ${i}: expected ${canon(x)}, got ${canon(g)}`)
      })
    }
    wanted.forEach((w, i) => { if (s.prep?.input) return; sameHistory(h.obs.requests[i].json.input, w, `input of request ${i}`) })
    if (s.prep?.input) wanted.forEach((w, i) => { const got = h.obs.requests[i].json.input; sameHistory(h.obs.preps[i].input, w, `history given to the preparation of step ${i}`); env.check(Array.isArray(got), 'input') })
    sameHistory(h.transcript.value, history, 'final input')
    const ids = h.transcript.value.filter(x => x.type === 'function_call_output').map(x => x.id)
    env.check(new Set(ids).size === ids.length, `function-call outputs share an id: ${canon(ids)}`)
    env.check(canon(given) === before, 'the caller\'s input was modified')
    // ---- everything else in the request
    const expectTools = h0.tools?.map(t => ({ description: t.function.description ?? null, name: t.function.name, parameters: t.function.parameters, strict: t.function.strict ?? true, type: 'function' }))
    for (const r of h.obs.requests) {
      const { input, ...rest } = r.json
      const want = { ...(s.options ? FULL_WIRE : {}), model: 'm', stream: true, ...(expectTools?.length ? { tools: expectTools } : {}) }
      if (Array.isArray(rest.tools) && rest.tools.length === 0 && !expectTools?.length) delete rest.tools
      env.expect(rest, want, 'request apart from its input')
      env.check(r.url.endsWith('/responses'), `request goes to ${r.url}`)
    }
    return canon(h.transcript.value.map(normMessage))
  },
}
