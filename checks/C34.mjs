import { canon, sequences } from '../lib/util.mjs'
import { deepFreeze } from '../lib/jsonschema.mjs'

const call = (id, extra) => ({ function: { arguments: '{"x":1}', name: 'a' }, id, type: 'function', ...extra })
// what may go into a message, and whether it is a tool call
const PARTS = {
  audio: { input_audio: { data: 'AA', format: 'wav' }, type: 'input_audio' }, file: { file: { file_data: 'x', filename: 'f' }, type: 'file' }, image: { image_url: { detail: 'low', url: 'http://i' }, type: 'image_url' },
  refusal: { refusal: 'no', type: 'refusal' }, text: { text: 't', type: 'text' }, text2: { text: '', type: 'text' }, almost: { function: 'f', id: 'i', type: 'function' }, other: { function: { name: 'f' }, id: 'i', text: 'x', type: 'text' }, untyped: { function: { arguments: '{}', name: 'f' }, id: 'i' }, noId: { function: { name: 'f' }, type: 'function' }, textId: { function: 'f', id: 'i', text: 'x', type: 'text' },
}
const CALLS = { call: call('c1'), callEmpty: call('', { function: {} }), callExtra: call('c2', { index: 0, vendor: { x: [1] } }), callName: call('c3', { function: { name: 'b' } }) }
const STRINGS = ['', 'hello', 'é😀\u0000\n', '{"type":"function"}', 'function', ' ']
const URLS = ['http://host', 'HTTP://Host:80/a b?x= y', ' http://x/ ', 'blob:http://x/1', 'é', 'data:image/svg+xml,<svg a="b"/>', `data:image/png;base64,${'A'.repeat(100_000)}`, 'http://x/a.png', 'data:image/png;base64,AAAA', '', 'https://h/?a=b&c=%20#f']
const IDS = ['c1', '', 'call_😀', '0']

export default {
  id: 'C34',
  bundle: 'small',
  dev: { quick: 0, thorough: 0 },
  bounds: {
    quick: 'every helper over 6 strings, all part lists of up to 3 over 11 part kinds (near misses of tool calls among them), all tool-call lists of up to 3 over 4 tool-call shapes, single parts and calls; lists that mix both; tool messages for 4 ids; message lists of up to 3; inputs deeply frozen',
    thorough: 'lists of up to 5',
  },
  * scenarios(tier) {
    const n = tier === 'thorough' ? 5 : 3
    yield { simple: true }
    for (const seq of sequences(Object.keys(PARTS), n, 0)) yield { parts: seq }
    for (const seq of sequences(Object.keys(CALLS), n, 1)) yield { calls: seq }
    // a list of tool calls is one in which everything is a tool call
    for (const part of Object.keys(PARTS)) for (const c of Object.keys(CALLS)) for (const list of [[part, c], [c, part], [c, c, part], [part, c, part]]) yield { list, mixed: true }
    for (const one of Object.keys(CALLS)) yield { one }
    for (const seq of sequences(['system', 'user', 'assistant', 'calls', 'tool'], n, 0)) yield { list: seq }
  },
  async execute(env, s) {
    const m = env.lib.message
    const put = (got, want, what) => { env.expect(JSON.parse(JSON.stringify(got)), want, what); env.check(Object.keys(got).filter(k => got[k] !== undefined).sort().join() === Object.keys(want).sort().join(), `${what} has the members ${Object.keys(got)}`) }
    if (s.simple) {
      for (const t of STRINGS) {
        put(m.system(t), { content: t, role: 'system' }, 'a system message')
        put(m.user(t), { content: t, role: 'user' }, 'a user message')
        put(m.assistant(t), { content: t, role: 'assistant' }, 'an assistant message')
        put(m.textPart(t), { text: t, type: 'text' }, 'a text part')
        env.check(m.isToolCall(t) === false, `${JSON.stringify(t)} is taken for a tool call`)
        for (const id of IDS) { const c = deepFreeze(call(id)); put(m.tool(t, c), { content: t, role: 'tool', tool_call_id: id }, 'a tool message') }
      }
      for (const u of URLS) put(m.imagePart(u), { image_url: { url: u }, type: 'image_url' }, 'an image part')
      return 'simple'
    }
    if (s.parts) {
      const parts = deepFreeze(s.parts.map(k => ({ ...PARTS[k] })))
      const before = canon(parts)
      const wire = JSON.parse(JSON.stringify(parts))
      put(m.system(parts), { content: wire, role: 'system' }, 'a system message')
      put(m.user(parts), { content: wire, role: 'user' }, 'a user message')
      put(m.tool(parts, deepFreeze(call('c9'))), { content: wire, role: 'tool', tool_call_id: 'c9' }, 'a tool message')
      // an empty list has neither calls nor content to tell it apart
      if (parts.length) {
        put(m.assistant(parts), { content: wire, role: 'assistant' }, 'an assistant message')
        env.check(m.isToolCall(parts) === false, `${before} is taken for tool calls`)
        for (const p of parts) env.check(m.isToolCall(p) === false, `${canon(p)} is taken for a tool call`)
      }
      env.check(canon(parts) === before, 'the parts given were changed')
      return `parts${parts.length}`
    }
    if (s.calls || s.one) {
      const calls = deepFreeze((s.calls ?? [s.one]).map(k => structuredClone(CALLS[k])))
      const before = canon(calls)
      const given = s.one ? calls[0] : calls
      env.check(m.isToolCall(given) === true, `${canon(given)} is not taken for ${s.one ? 'a tool call' : 'tool calls'}`)
      put(m.assistant(given), { role: 'assistant', tool_calls: JSON.parse(JSON.stringify(calls)) }, 'an assistant message')
      for (const c of calls) put(m.tool('res', c), { content: 'res', role: 'tool', tool_call_id: c.id }, 'a tool message')
      env.check(canon(calls) === before, 'the calls given were changed')
      return `calls${calls.length}`
    }
    if (s.mixed) {
      const parts = deepFreeze(s.list.map(k => structuredClone(PARTS[k] ?? CALLS[k])))
      put(m.assistant(parts), { content: JSON.parse(JSON.stringify(parts)), role: 'assistant' }, 'an assistant message')
      env.check(m.isToolCall(parts) === false, `${canon(parts)} is taken for tool calls`)
      return 'mixed'
    }
    const make = { assistant: () => m.assistant('hi'), calls: () => m.assistant(CALLS.call), system: () => m.system('s'), tool: () => m.tool('r', CALLS.call), user: () => m.user('u') }
    const want = { assistant: { content: 'hi', role: 'assistant' }, calls: { role: 'assistant', tool_calls: [CALLS.call] }, system: { content: 's', role: 'system' }, tool: { content: 'r', role: 'tool', tool_call_id: 'c1' }, user: { content: 'u', role: 'user' } }
    env.expect(JSON.parse(JSON.stringify(m.messages(...s.list.map(k => make[k]())))), s.list.map(k => want[k]), 'the message list')
    return `list${s.list.length}`
  },
}
