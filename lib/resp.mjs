// The Responses protocol as a table: every kind of output item with the server events that carry it
// and, next to each of them, the library event (if any) it must be mapped to.
const cut = (s, k) => { if (s.length <= 1 || k <= 1) return [s]; const n = Math.ceil(s.length / k); const out = []; for (let i = 0; i < s.length; i += n) out.push(s.slice(i, i + n)); return out }
const added = (item, i) => ({ item, output_index: i, type: 'response.output_item.added' })
const done = (item, i) => ({ item, output_index: i, type: 'response.output_item.done' })
const ref = (item, i, rest) => ({ item_id: item.id, output_index: i, sequence_number: i, ...rest })

const CHARS = 'e\u0301 a\u200D\uD83D\uDC68wo rd\r\n\ufe0f.\ufeff\u0301'
const message = (parts, extra) => (n, i, split) => {
  const item = { content: parts, id: `msg_${n}_${i}`, role: 'assistant', status: 'completed', type: 'message', ...extra }
  const ev = [[added({ ...item, content: [], status: 'in_progress' }, i), []]]
  parts.forEach((p, k) => {
    const at = { content_index: k }
    const refusal = p.type === 'refusal'
    const text = refusal ? p.refusal : p.text
    const word = refusal ? 'response.refusal' : 'response.output_text'
    ev.push([ref(item, i, { ...at, part: refusal ? { refusal: '', type: 'refusal' } : { annotations: [], text: '', type: p.type }, type: 'response.content_part.added' }), [{ type: 'text.start' }]])
    for (const delta of cut(text, split)) ev.push([ref(item, i, { ...at, delta, obfuscation: 'zz', type: `${word}.delta` }), [{ delta, type: 'text.delta' }], { text: delta }])
    if (p.annotations?.length) ev.push([ref(item, i, { ...at, annotation: p.annotations[0], annotation_index: 0, type: 'response.output_text.annotation.added' }), []])
    ev.push([ref(item, i, { ...at, ...(refusal ? { refusal: text } : { text }), type: `${word}.done` }), [{ content: text, type: 'text.done' }]])
    ev.push([ref(item, i, { ...at, part: p, type: 'response.content_part.done' }), []])
  })
  ev.push([done(item, i), []])
  return { events: ev, item, text: parts.filter(p => p.type !== 'refusal').map(p => p.text).join('') }
}
const call = (name, args, extra, callId) => (n, i, split) => {
  const item = { arguments: args, call_id: callId ?? `call_${n}_${i}`, id: `fc_${n}_${i}`, name, status: 'completed', type: 'function_call', ...extra }
  return {
    call: { args, id: item.call_id, name },
    events: [
      [added({ ...item, arguments: '', status: 'in_progress' }, i), [{ toolCallId: item.call_id, toolName: name, type: 'tool-call.start' }]],
      ...cut(args, split).map(delta => [ref(item, i, { delta, type: 'response.function_call_arguments.delta' }), [{ delta, type: 'tool-call.delta' }]]),
      [ref(item, i, { arguments: args, type: 'response.function_call_arguments.done' }), []],
      [done(item, i), [{ args, toolCallId: item.call_id, toolCallType: 'function', toolName: name, type: 'tool-call.done' }]],
    ],
    item,
  }
}
const reasoning = (word, text, extra) => (n, i, split) => {
  const item = { id: `rs_${n}_${i}`, summary: word === 'reasoning' ? [] : [{ text, type: 'summary_text' }], type: 'reasoning', ...extra }
  const ev = [[added({ ...item, summary: [] }, i), [{ type: 'reasoning.start' }]]]
  if (word !== 'reasoning') ev.push([ref(item, i, { part: { text: '', type: 'summary_text' }, summary_index: 0, type: 'response.reasoning_summary_part.added' }), []])
  for (const delta of cut(text, split)) ev.push([ref(item, i, { delta, type: `response.${word}.delta` }), [{ delta, type: 'reasoning.delta' }], { reasoning: delta }])
  ev.push([ref(item, i, { text, type: `response.${word}.done` }), [{ content: text, type: 'reasoning.done' }]])
  if (word !== 'reasoning') ev.push([ref(item, i, { part: item.summary[0], summary_index: 0, type: 'response.reasoning_summary_part.done' }), []])
  ev.push([done(item, i), []])
  return { events: ev, item }
}
const opaque = (make, begin = []) => (n, i) => { const item = make(n, i); return { events: [[added(item, i), begin], [done(item, i), []]], item } }
const out = (text, extra = {}) => ({ annotations: [], text, type: 'output_text', ...extra })

export const ITEMS = {
  callA: call('a', '{"x":"1"}'), callB: call('b', '{}'), callBad: call('a', '{oops'), callGhost: call('ghost', '{"q":[1]}'), callP: call('p', ''), callTwin: call('a', '{"x":"1"}', {}, 'twin'),
  compact: opaque((n, i) => ({ encrypted_content: 'AAA=', id: `cmp_${n}_${i}`, type: 'compaction' })),
  msg: message([out('Hi thére 😀')]), msgCite: message([out('see', { annotations: [{ end_index: 3, start_index: 0, title: 't', type: 'url_citation', url: 'http://u' }], logprobs: [] })]),
  msgBlank: message([out(' \n')]), msgEmpty: message([out('')]), msgParts: message([out('one '), out('two'), { text: ' three', type: 'text' }]), refusal: message([{ refusal: 'I cannot', type: 'refusal' }]), mixed: message([out('partly '), { refusal: 'no', type: 'refusal' }]), nopart: message([]),
  rawReason: reasoning('reasoning', 'raw thought', { content: [{ text: 'raw thought', type: 'reasoning_text' }] }),
  reason: reasoning('reasoning_summary_text', 'hmm, lët me', { encrypted_content: null }),
  reasonBare: opaque((n, i) => ({ encrypted_content: 'zzz', id: `rs_${n}_${i}`, status: 'incomplete', summary: [], type: 'reasoning' }), [{ type: 'reasoning.start' }]),
  msgCut: message([out('cut of')], { status: 'incomplete' }), msgPhase: message([out('thinking aloud')], { phase: 'commentary' }), callBare: call('a', '{"x":"2"}', { id: undefined, status: undefined }),
  search: opaque((n, i) => ({ action: { query: 'q', type: 'search' }, id: `ws_${n}_${i}`, status: 'completed', type: 'web_search_call' })),
  vendor: opaque((n, i) => ({ blob: { deep: [null, 1] }, id: `v_${n}_${i}`, type: 'acme:thing' })),
}
/** items whose every character could be the beginning of a longer one */
const ODD_ITEMS = { msgChars: message([out(CHARS)]), reasonChars: reasoning('reasoning_summary_text', CHARS), refusalChars: message([{ refusal: CHARS, type: 'refusal' }]) }
/** t = {items: [names], status?, usage?, split?, end?}; everything one response of the server means */
export const respTurn = (t, n) => {
  const parts = t.items.map((k, i) => (ITEMS[k] ?? ODD_ITEMS[k])(n, i, t.split ?? 1))
  relabel(parts, t.ids)
  const output = parts.map(p => p.item)
  const usage = t.usage === undefined ? [n + 1, 2, n + 3] : t.usage
  const wire = usage && { input_tokens: usage[0], input_tokens_details: { cached_tokens: 0 }, output_tokens: usage[1], total_tokens: usage[2] }
  const seen = usage ? { inputTokens: usage[0], outputTokens: usage[1], totalTokens: usage[2] } : undefined
  const status = t.status ?? 'completed'
  const head = [[{ response: { id: `r${n}`, output: [], status: 'in_progress' }, sequence_number: 0, type: 'response.created' }, [{ type: 'step.start' }]]]
  if (t.chatter) head.push([{ response: { id: `r${n}`, output: [], status: 'queued' }, type: 'response.queued' }, []], [{ response: { id: `r${n}`, output: [], status: 'in_progress' }, type: 'response.in_progress' }, []], [{ item_id: 'x', type: 'response.some_future.event' }, []])
  const body = t.interleave ? interleave(parts.map(p => p.events)) : parts.flatMap(p => p.events)
  const end = { response: { error: status === 'failed' ? { code: 'server_error', message: 'broke' } : null, id: `r${n}`, incomplete_details: status === 'incomplete' ? { reason: 'max_output_tokens' } : null, output, status, usage: wire ?? null }, type: `response.${status}` }
  const calls = parts.flatMap(p => p.call ? [p.call] : [])
  const text = parts.map(p => p.text ?? '').join('')
  return { body: [...head, ...body], calls, end, endEvent: { type: 'step.done', usage: seen }, output, status, text: text === '' ? undefined : text, usage: seen }
}
/** servers choose item ids as they like: unique to the response only, all the same, or none at all */
const relabel = (parts, how) => {
  if (!how) return
  parts.forEach((p, i) => {
    const id = how === 'perResponse' ? `item_${i}` : how === 'same' ? 'item' : undefined
    for (const x of [p.item, ...p.events.flatMap(([e]) => e.item ? [e.item] : [])]) { if (id === undefined) delete x.id; else x.id = id }
    for (const [e] of p.events) if ('item_id' in e) { if (id === undefined) delete e.item_id; else e.item_id = id }
  })
}
/** items whose events arrive round robin, each item's own in order */
const interleave = (lists) => {
  const out = []
  for (let i = 0; lists.some(l => i < l.length); i++) for (const l of lists) if (i < l.length) out.push(l[i])
  return out
}
/** order in which items finish */
export const finished = t => t.body.filter(([e]) => e.type === 'response.output_item.done').map(([e]) => e.item)
