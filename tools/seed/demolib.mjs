// Helper of a demonstration: bundles the sources below the current directory and runs a scenario against them.
import assert from 'node:assert/strict'
import { createRequire } from 'node:module'
import path from 'node:path'

const require = createRequire(import.meta.url)
const ROOT = process.cwd()
const esbuild = ['/opt/veriftools/node/node_modules/esbuild', path.join(ROOT, 'node_modules/esbuild')]
  .map((p) => { try { return require(p) } catch { return undefined } })
  .find(x => x != null)

Uint8Array.fromBase64 ??= s => new Uint8Array(Buffer.from(s, 'base64'))
globalThis.FileReader ??= class {
  readAsDataURL(blob) {
    blob.arrayBuffer().then((b) => {
      this.result = `data:${blob.type || 'application/octet-stream'};base64,${Buffer.from(b).toString('base64')}`
      this.onloadend?.()
    }, e => this.onerror?.(e))
  }
}

/** load('packages-top/xsai', ...) -> one object with everything these packages export */
export const load = async (...entries) => {
  const res = await esbuild.build({
    bundle: true,
    conditions: ['import', 'node', 'default'],
    external: ['zod', 'zod/*', 'zod-to-json-schema', 'effect', 'sury', '@valibot/to-json-schema', 'arktype', 'valibot'],
    format: 'cjs',
    logLevel: 'silent',
    mainFields: ['module', 'main'],
    platform: 'node',
    stdin: {
      contents: entries.map(e => `export * from ${JSON.stringify(path.join(ROOT, /\.[jt]s$/.test(e) ? e : `${e}/src/index.ts`))}`).join('\n'),
      loader: 'ts',
      resolveDir: path.join(ROOT, 'packages-top/xsai'),
    },
    target: 'es2023',
    write: false,
  })
  const mod = { exports: {} }
  new Function('module', 'exports', 'require', res.outputFiles[0].text)(mod, mod.exports, createRequire(path.join(ROOT, 'packages-top/xsai/package.json')))
  return mod.exports
}

export const clone = x => structuredClone(x)
export const sleep = ms => new Promise(r => setTimeout(r, ms))

/** a fetch that answers its n-th call with handler(n, {url, init, body}); calls are kept in .calls */
export const mockFetch = (handler) => {
  const calls = []
  const f = async (url, init = {}) => {
    const raw = init.body ?? null
    let body = raw
    if (typeof raw === 'string') { try { body = JSON.parse(raw) } catch {} }
    const call = { body, init, raw, url: String(url instanceof Request ? url.url : url) }
    calls.push(call)
    return handler(calls.length - 1, call)
  }
  f.calls = calls
  return f
}

export const json = (value, init) => new Response(JSON.stringify(value), { headers: { 'Content-Type': 'application/json' }, ...init })
export const usage = (i, o) => ({ completion_tokens: o, prompt_tokens: i, total_tokens: i + o })
export const call = (id, name, args) => ({ function: { arguments: typeof args === 'string' ? args : JSON.stringify(args), name }, id, type: 'function' })
export const answer = (message, { finish, u = usage(1, 1) } = {}) => json({
  choices: [{ finish_reason: finish ?? (message.tool_calls ? 'tool_calls' : 'stop'), index: 0, message: { role: 'assistant', ...message } }],
  id: 'x', model: 'm', object: 'chat.completion', usage: u,
})
/** body of a server-sent stream, in the given pieces */
export const bytes = (...pieces) => new Response(new ReadableStream({
  start(c) {
    for (const p of pieces) c.enqueue(typeof p === 'string' ? new TextEncoder().encode(p) : p)
    c.close()
  },
}), { headers: { 'Content-Type': 'text/event-stream' } })
export const sse = (...events) => bytes(...events.map(e => `data: ${typeof e === 'string' ? e : JSON.stringify(e)}\n\n`), 'data: [DONE]\n\n')
export const delta = (d, rest = {}) => ({ choices: [{ delta: d, index: 0, ...rest }] })
/** events of a Responses run (no end marker) */
export const rsse = (...events) => bytes(...events.map(e => `event: ${e.type}\ndata: ${JSON.stringify(e)}\n\n`))

export const read = async (stream) => {
  const out = []
  for await (const x of stream) out.push(x)
  return out
}
export const outcome = async (p) => {
  try { return { value: await p } } catch (error) { return { error } }
}
export const base = { apiKey: 'k', baseURL: 'http://server.test/v1/', model: 'm' }
export const mkTool = (name, execute, validate) => ({ execute, function: { name, parameters: { properties: {}, type: 'object' } }, type: 'function', ...(validate ? { validate } : {}) })

export const main = (fn) => {
  setTimeout(() => { console.error('the demonstration hangs'); process.exit(3) }, 20_000).unref?.()
  const keep = setInterval(() => {}, 1000)
  process.on('unhandledRejection', (e) => { console.error('unhandled rejection', e); process.exit(4) })
  Promise.resolve().then(() => fn(assert)).then(() => { clearInterval(keep); console.log('ok'); process.exit(0) }, (e) => { console.error(e); process.exit(1) })
}
