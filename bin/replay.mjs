#!/usr/bin/env node
// Replays one recorded counterexample against the current tree, without the explorer.
import fs from 'node:fs'
import path from 'node:path'
import { pathToFileURL, fileURLToPath } from 'node:url'
import { bundle, compile } from '../lib/build.mjs'
import { runOnce } from '../lib/explore.mjs'
import { bundlesOf, scenariosOf } from '../lib/scenarios.mjs'

const r = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))
const root = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..')
const check = (await import(pathToFileURL(path.join(root, 'checks', `${r.property}.mjs`)))).default
let scenario
let i = 0
for (const s of scenariosOf(check, r.tier)) if (i++ === r.index) { scenario = s; break }
const factories = {}
for (const n of bundlesOf(check)) factories[n] = compile(await bundle(n))
const res = await runOnce(check, scenario, r.choices.map(c => ({ c })), { factories, trace: true })
for (const l of res.env?.trace ?? []) console.log(l)
if (res.violation) { console.log(`REPRODUCED: ${res.violation.message}`); process.exitCode = 1 }
else if (res.harness) { console.log(`ERROR: ${res.harness.stack ?? res.harness}`); process.exitCode = 2 }
else console.log('not reproduced: the property holds on this schedule')
