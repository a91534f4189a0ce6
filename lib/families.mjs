// Shared alphabets for the loop checks. Simplest first.
export const MESSAGES = {
  user: [{ content: 'hi', role: 'user' }],
  sysuser: [{ content: 'be brief', role: 'system' }, { content: [{ text: 'look', type: 'text' }, { image_url: { url: 'data:,x' }, type: 'image_url' }], role: 'user' }],
  history: [
    { content: 'q1', name: 'bob', role: 'user' },
    { content: null, role: 'assistant', tool_calls: [{ function: { arguments: '{}', name: 'old' }, id: 'old1', type: 'function' }] },
    { content: 'old result', role: 'tool', tool_call_id: 'old1' },
    { content: 'a1', reasoning: 'because', role: 'assistant' },
    { content: 'q2 ü😀\u2028', role: 'user' },
  ],
  empty: [],
  dup: [{ content: '', role: 'user' }, { content: '', role: 'user' }],
}
export const TOOLS = [{ name: 'a' }, { kind: 'obj', name: 'b' }, { kind: 'parts', name: 'p', mode: 'sync' }, { kind: 'echo', mode: 'async', name: 'other' }]
let n = 0
/** a call with an id that is unique within the scenario */
export const call = (name, args, id) => ({ args, id, name })

export const TOOL_TURNS = {
  one: k => ({ calls: [{ args: '{"x":"1"}', id: `c${k}`, name: 'a' }], text: null, usage: [1, 2, 3] }),
  text: k => ({ calls: [{ args: '{"x":"2"}', id: `c${k}`, name: 'b' }], text: `let me see ${k}`, usage: [4, 5, 9] }),
  two: k => ({ calls: [{ args: '{"x":"1"}', id: `c${k}a`, name: 'a' }, { args: '', id: `c${k}b`, name: 'b' }], text: '', usage: [7, 0, 7] }),
  sameTool: k => ({ calls: [{ args: '{"x":"l"}', id: `c${k}l`, name: 'a' }, { args: '{"x":"r"}', id: `c${k}r`, name: 'a' }], usage: [2, 2, 4] }),
  three: k => ({ calls: [{ args: '{"n":3}', id: `c${k}1`, name: 'p' }, { args: '{ }', id: `c${k}2`, name: 'a' }, { args: '[1]', id: `c${k}3`, name: 'other' }], text: 'three', reasoning: `think ${k}`, usage: [10, 20, 30] }),
  errors: k => ({ calls: [{ args: '{bad', id: `c${k}e`, name: 'a' }, { args: '{}', id: `c${k}u`, name: 'ghost' }, { args: '{}', id: `c${k}k`, name: 'a' }], text: 'x', usage: [1, 1, 2] }),
  reason: k => ({ calls: [{ args: '{"x":"ü😀"}', id: `c${k}`, name: 'b' }], reasoning: 'hmm', rf: 'reasoning', text: '', usage: [0, 0, 0] }),
}
/** a run far longer than usual: n turns of all shapes, and a last one */
export const longRun = (n, from = 0, extra = {}) => [...Array.from({ length: n }, (_, i) => ({ ...Object.values(TOOL_TURNS)[(i + from) % 7](i), ...extra })), { ...FINAL_TURNS.reasoning, ...extra }]
/** the same calls as some servers write them: without their type, with more members than needed */
export const ODD_CALLS = { alone: c => ({ ...c, type: undefined }), extra: c => ({ ...c, more: { vendor: { a: [1] } } }), null: c => ({ ...c, type: null }) }
export const withCalls = (turn, f) => ({ ...turn, calls: turn.calls.map(f) })
export const FINAL_TURNS = {
  text: { text: 'done', usage: [3, 3, 6] },
  empty: { text: '', usage: [1, 0, 1] },
  reasoning: { reasoning: 'r', text: 'fin', usage: [1, 2, 3] },
  length: { finish: 'length', text: 'cut', usage: [9, 9, 18] },
}
