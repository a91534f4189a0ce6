// Bundles the code under test from the repository's current working tree.
// The result is the source text of one function body: (injected globals...) => exports.
import { createRequire } from 'node:module'
import path from 'node:path'

const require = createRequire(import.meta.url)
export const REPO = process.env.XSAI_REPO ?? '/repo'

const findEsbuild = () => {
  for (const p of ['/opt/veriftools/node/node_modules/esbuild', 'esbuild', path.join(REPO, 'node_modules/esbuild')]) {
    try { return require(p) } catch {}
  }
  throw new Error('esbuild not found')
}

const r = p => JSON.stringify(path.join(REPO, p))

const VENDORS = /^(zod(\/.*)?|zod-to-json-schema|effect|sury|@valibot\/to-json-schema|arktype|valibot)$/
const ENTRIES = {
  core: () => `
    export * from ${r('packages-top/xsai/src/index.ts')}
    export { responses } from ${r('packages-ext/responses/src/index.ts')}
    export * as responsesPkg from ${r('packages-ext/responses/src/index.ts')}
    export { createFetch } from ${r('packages-top/xsfetch/src/index.ts')}
    export * as xsschema from ${r('packages-top/xsschema/src/index.ts')}
    export { executeTool } from ${r('packages/shared-chat/src/index.ts')}
  `,
  telemetry: () => `
    export * as plain from ${r('packages-top/xsai/src/index.ts')}
    export * as telemetry from ${r('packages-ext/telemetry/src/index.ts')}
    export { trace, context, SpanStatusCode } from ${r('packages-ext/telemetry/node_modules/@opentelemetry/api')}
  `,
  providers: () => `
    export * as core from ${r('packages-top/xsai/src/index.ts')}
    export * as create from ${r('packages-ext/providers/src/create.ts')}
    export * as ready from ${r('packages-ext/providers/src/index.ts')}
    export * as special from ${r('packages-ext/providers/src/special/index.ts')}
    export * as specialCreate from ${r('packages-ext/providers/src/special/create.ts')}
    export * as utils from ${r('packages-ext/providers/src/utils/index.ts')}
  `,
  schemas: () => `
    export * from ${r('packages-top/xsschema/src/index.ts')}
    export { defineTool, tool } from ${r('packages/tool/src/index.ts')}
  `,
  small: () => `
    export * from ${r('packages/utils-reasoning/src/index.ts')}
    export * from ${r('packages/utils-stream/src/index.ts')}
    export * from ${r('packages/utils-chat/src/index.ts')}
    export * from ${r('packages/shared-chat/src/index.ts')}
    export { createFetch } from ${r('packages-top/xsfetch/src/index.ts')}
    export { EventSourceParserStream, JsonMessageTransformStream, parseJsonSSEMessage } from ${r('packages/shared-stream/src/index.ts')}
    export * from ${r('packages/stream-object/src/index.ts')}
  `,
}

/** Names the bundle sees as its environment; every one of them is supplied per execution. */
export const INJECTED = ['globalThis', 'fetch', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'crypto', 'console', 'Math', 'Date', 'performance', 'FileReader', 'process', 'AbortSignal', 'window', 'self', 'global']

export const bundle = async (name) => {
  const esbuild = findEsbuild()
  const res = await esbuild.build({
    stdin: { contents: ENTRIES[name](), resolveDir: path.join(REPO, 'packages-top/xsai'), loader: 'ts', sourcefile: `entry-${name}.ts` },
    bundle: true,
    write: false,
    format: 'iife',
    globalName: '__lib',
    platform: 'neutral',
    mainFields: ['module', 'main'],
    conditions: ['import', 'node', 'default'],
    target: 'es2023',
    logLevel: 'silent',
    // the global fetch may be replaced while the library is in use: its two names stay one
    define: { fetch: 'globalThis.fetch' },
    plugins: [{
      name: 'shims',
      setup(b) {
        b.onResolve({ filter: /^(node:)?process$/ }, () => ({ path: 'process', namespace: 'shim' }))
        b.onLoad({ filter: /.*/, namespace: 'shim' }, () => ({ contents: 'export default process; export const env = process.env', loader: 'js' }))
        // schema vendors are optional peer dependencies loaded on demand; the checks bring their own schemas
        // the schema check decides which of the schema vendors are installed
        if (name === 'schemas') {
          b.onResolve({ filter: VENDORS }, a => ({ path: a.path, namespace: 'vendor' }))
          b.onLoad({ filter: /.*/, namespace: 'vendor' }, a => ({ contents: `module.exports = globalThis.__vendor(${JSON.stringify(a.path)})`, loader: 'js' }))
          return
        }
        b.onResolve({ filter: VENDORS }, a => ({ path: a.path, external: true }))
      },
    }],
  })
  return res.outputFiles[0].text
}

/** Compile once; call the result per execution for a fresh library instance (fresh module state). */
export const compile = code => new Function(...INJECTED, `${code}\nreturn __lib`)
