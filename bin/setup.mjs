// Nothing to build ahead of time: confirm the toolchain can bundle and load the code under test.
import { bundle, compile } from '../lib/build.mjs'

for (const n of ['core', 'telemetry', 'providers', 'small']) compile(await bundle(n))
console.log(`setup ok (node ${process.version})`)
