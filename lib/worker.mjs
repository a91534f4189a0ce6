import { parentPort, workerData } from 'node:worker_threads'
import { compile } from './build.mjs'
import './unhandled.mjs'
import { scenariosOf } from './scenarios.mjs'
import { exploreScenario, newStats, runOnce } from './explore.mjs'


const { checkPath, bundles, tier, sab, id, only, known, deadline } = workerData
const ctl = new Int32Array(sab) // [0]=next index, [1]=stop, [2+2*id]=current scenario, [3+2*id]=beat
const check = (await import(checkPath)).default
const factories = Object.fromEntries(Object.entries(bundles).map(([k, v]) => [k, compile(v)]))
const stats = newStats()
const BLOCK = check.block ?? 4
const knownHits = []

const fmt = s => { const t = JSON.stringify(s); return t.length > 600 ? `${t.slice(0, 600)}…` : t }

try {
  let seenTotal = 0
  let claimed = Atomics.add(ctl, 0, BLOCK)
  for (const scenario of scenariosOf(check, tier)) {
    const idx = seenTotal++
    if (Atomics.load(ctl, 1)) break
    if (idx >= claimed + BLOCK) claimed = Atomics.add(ctl, 0, BLOCK)
    if (idx < claimed) continue
    if (only !== undefined && idx !== only) continue
    Atomics.store(ctl, 2 + 2 * id, idx)
    const bound = scenario.dev ?? check.dev?.[tier] ?? 0
    const budget = { stop: () => (Atomics.load(ctl, 1) !== 0) || Date.now() > deadline }
    const v = await exploreScenario(check, scenario, idx, bound, { factories, stats, beat: () => Atomics.add(ctl, 3 + 2 * id, 1), maxExec: check.maxExec ?? 2_000_000, budget })
    if (stats.samples.length < 3 && (idx % 97 === 0 || stats.samples.length === 0)) stats.samples.push({ index: idx, scenario: fmt(scenario) })
    if (v) {
      if (v.key !== undefined && known.includes(v.key)) { knownHits.push({ key: v.key, message: v.message }); continue }
      // development aid: list every violating scenario instead of stopping at the first
      if (process.env.VERIF_ALL) { console.log(`ALL ${idx} ${v.message.slice(0, 300)} ${fmt(scenario)}`); continue }
      // confirm: the recorded schedule must fail again, twice
      let again = 0
      for (let i = 0; i < 2; i++) {
        const r = await runOnce(check, scenario, v.choices.map(c => ({ c })), { factories, trace: true })
        if (r.violation) { again++; v.trace = r.env.trace }
      }
      if (again < 2) { parentPort.postMessage({ type: 'harness', message: `violation not reproducible (${again}/2): ${v.message} scenario ${fmt(scenario)}` }); break }
      Atomics.store(ctl, 1, 1)
      parentPort.postMessage({ type: 'violation', v })
      break
    }
    if (Date.now() > deadline) break
  }
}
catch (e) {
  Atomics.store(ctl, 1, 1)
  parentPort.postMessage({ type: 'harness', message: `${e?.stack ?? e}`, scenario: e?.scenario && fmt(e.scenario), choices: e?.choices })
}
const { stateSet, outcomes, ...rest } = stats
parentPort.postMessage({ type: 'done', stats: { ...rest, states: stateSet.size + stats.stateOverflow }, outcomes: [...outcomes].slice(0, 200000), knownHits })
