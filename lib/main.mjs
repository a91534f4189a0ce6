import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath, pathToFileURL } from 'node:url'
import { Worker } from 'node:worker_threads'

import { bundle, REPO } from './build.mjs'
import { bundlesOf, scenariosOf } from './scenarios.mjs'

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..')

export const knownFindings = (id) => {
  const f = path.join(ROOT, 'known_findings.txt')
  if (!fs.existsSync(f)) return []
  return fs.readFileSync(f, 'utf8').split('\n').map(l => l.match(/^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$/)).filter(m => m && m[1] === id).map(m => ({ key: m[2], text: m[3] }))
}

// where evidence and replays go (the planting tool keeps them out of /verif)
const OUT = process.env.VERIF_OUT ?? ROOT

export const runCheck = async (id, tier) => {
  const t0 = Date.now()
  const checkPath = path.join(ROOT, 'checks', `${id}.mjs`)
  const check = (await import(pathToFileURL(checkPath))).default
  const names = bundlesOf(check)
  const bundles = {}
  for (const n of names) bundles[n] = await bundle(n)
  const N = Math.max(1, Math.min(Number(process.env.VERIF_WORKERS) || check.workers || 8, os.cpus().length, 8))
  const sab = new SharedArrayBuffer(4 * (2 + 2 * N))
  const ctl = new Int32Array(sab)
  for (let i = 0; i < N; i++) ctl[2 + 2 * i] = -1
  const known = knownFindings(id)
  const seed = Number(process.env.VERIF_SEED ?? 1)
  const limitS = tier === 'quick' ? (check.quickLimitS ?? 420) : (Number(process.env.VERIF_THOROUGH_S) || (check.thoroughLimitS ?? 3000))
  const deadline = t0 + limitS * 1000
  const STALL = (check.stallS ?? 60) * 1000

  const violations = []; const harness = []; const parts = []; const outcomes = new Set(); const knownHits = []
  await new Promise((resolve) => {
    let alive = N
    const ended = () => { if (--alive === 0) { clearInterval(timer); resolve() } }
    const workers = []
    const last = Array.from({ length: N }, () => ({ beat: -1, at: Date.now() }))
    for (let i = 0; i < N; i++) {
      const w = new Worker(path.join(ROOT, 'lib/worker.mjs'), { workerData: { checkPath: pathToFileURL(checkPath).href, bundles, tier, sab, id: i, known: known.map(k => k.key), deadline }, resourceLimits: { maxOldGenerationSizeMb: 2500 } })
      workers.push(w)
      let finished = false
      w.on('message', (m) => {
        if (m.type === 'violation') violations.push(m.v)
        else if (m.type === 'harness') { harness.push(m); Atomics.store(ctl, 1, 1) }
        else if (m.type === 'done') { parts.push(m.stats); for (const o of m.outcomes) outcomes.add(o); knownHits.push(...m.knownHits); finished = true }
      })
      w.on('error', (e) => {
        if (e?.code === 'ERR_WORKER_OUT_OF_MEMORY') violations.push({ idx: ctl[2 + 2 * i], choices: [], message: 'execution exhausts memory (unbounded growth): the operation never completes', scenario: null })
        else harness.push({ message: String(e?.stack ?? e) })
        Atomics.store(ctl, 1, 1)
      })
      w.on('exit', () => { if (!finished) { w.finishedAbnormally = true } ended(); w.gone = true })
    }
    const timer = setInterval(() => {
      for (let i = 0; i < N; i++) {
        if (workers[i].gone) continue
        const b = Atomics.load(ctl, 3 + 2 * i)
        if (b !== last[i].beat) { last[i] = { beat: b, at: Date.now() } }
        else if (ctl[2 + 2 * i] >= 0 && Date.now() - last[i].at > STALL) {
          violations.push({ idx: ctl[2 + 2 * i], choices: [], hang: true, message: `execution makes no progress for ${STALL / 1000} s (endless loop): the operation never completes`, scenario: null })
          Atomics.store(ctl, 1, 1)
          for (const w of workers) w.terminate()
          return
        }
      }
    }, 500)
  })

  const sum = k => parts.reduce((a, p) => a + p[k], 0)
  const max = k => parts.reduce((a, p) => Math.max(a, p[k]), 0)
  const total = sum('scenarios')
  const capped = sum('capped') > 0 || Date.now() > deadline
  let nScen
  if (!violations.length && !harness.length) { nScen = 0; for (const _ of scenariosOf(check, tier)) nScen++ }
  for (const v of violations) {
    if (v.scenario === null && v.idx >= 0) { let i = 0; for (const s of scenariosOf(check, tier)) if (i++ === v.idx) { v.scenario = s; break } }
  }
  violations.sort((a, b) => a.idx - b.idx)

  const exhaustive = !capped && !violations.length && !harness.length && total === nScen
  const evidence = {
    property: id, tier, seed, level: 'model_checking',
    coverage: {
      states: sum('states'),
      transitions: sum('transitions') + sum('executions'),
      traces_validated_against_impl: sum('executions'),
      scenarios: total,
      scenario_family_size: nScen,
      choice_points: sum('choicePoints'),
      distinct_outcomes: outcomes.size,
      max_choice_depth: max('maxDepth'),
      deviation_bound: check.dev?.[tier] ?? 0,
      max_deviations_reached: max('maxDeviations'),
      replay_determinism_checks: sum('determinismChecks'),
      exhaustive,
      capped,
      bounds: `${check.bounds?.[tier] ?? check.bounds ?? ''}${check.traced ? `; ${check.traced.only ? 'part of ' : ''}the chat runs also with the telemetry versions of generateText and streamText, within ${Math.min(check.dev?.[tier] ?? 0, check.traced[tier])} deviation(s)` : ''}`,
      explanation: 'Each trace is one complete execution of the real code (bundled from the repository working tree for this run) under the controlled event loop, compared with the reference model; states are distinct (scenario, observation history, enabled actions) triples at scheduling points; transitions are environment actions taken, plus one per execution for the driving call.',
      samples: parts.flatMap(p => p.samples).slice(0, 6),
      ...(violations[0] ? { counterexample: violations[0].message } : {}),
    },
    assumptions: check.assumptions ?? ['JavaScript runs to completion between awaits, so schedules are orders of environment actions (network answers, body chunks, tool/hook completions, timers, consumer and abort actions); microtasks are drained between actions', 'values outside the stated alphabets and histories beyond the stated bounds are not covered'],
    wall_s: (Date.now() - t0) / 1000,
    violations: violations.length,
  }
  fs.mkdirSync(path.join(OUT, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(OUT, 'evidence', `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`)

  for (const k of known) {
    const hit = knownHits.find(h => h.key === k.key)
    if (hit) console.log(`KNOWN-FINDING: property=${id} ${k.text}`)
  }
  console.log(`${id} [${tier}] scenarios=${total}${nScen !== undefined ? `/${nScen}` : ''} executions=${evidence.coverage.traces_validated_against_impl} states=${evidence.coverage.states} transitions=${evidence.coverage.transitions} outcomes=${outcomes.size} deviations<=${evidence.coverage.max_deviations_reached} ${exhaustive ? 'exhaustive' : capped ? 'CAPPED' : ''} ${evidence.wall_s.toFixed(1)}s repo=${REPO}`)
  if (violations.length) {
    const v = violations[0]
    fs.mkdirSync(path.join(OUT, 'replays'), { recursive: true })
    const rp = path.join(OUT, 'replays', `${id}-${tier}.json`)
    fs.writeFileSync(rp, `${JSON.stringify({ property: id, tier, index: v.idx, scenario: v.scenario, choices: v.choices, labels: v.labels, message: v.message, detail: v.detail, trace: v.trace, replay_with: `node bin/replay.mjs ${rp}` }, null, 1)}\n`)
    console.log(`  ${v.message.slice(0, 1500)}`)
    console.log(`VIOLATION property=${id} replay=${rp}`)
    return 1
  }
  if (harness.length) {
    console.error(`HARNESS ERROR in ${id}: ${harness[0].message}`)
    if (harness[0].scenario) console.error(`  scenario: ${harness[0].scenario} choices: ${JSON.stringify(harness[0].choices)}`)
    return 2
  }
  if (total !== nScen && !capped) { console.error(`HARNESS ERROR in ${id}: explored ${total} of ${nScen} scenarios`); return 2 }
  if (evidence.coverage.traces_validated_against_impl === 0) { console.error(`HARNESS ERROR in ${id}: nothing explored`); return 2 }
  return 0
}
