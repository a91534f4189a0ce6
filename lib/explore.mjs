// Deviation-bounded exhaustive exploration by choice-prefix replay.
import { Env, HarnessError, Violation } from './env.mjs'
import { escaped } from './unhandled.mjs'
import { Hash, hashOf } from './util.mjs'

const labelOf = e => typeof e === 'string' ? e : e.map(a => a.label).join(',')

export class Ctx {
  constructor(prefix, stats, salt) {
    this.prefix = prefix; this.points = []; this.stats = stats; this.salt = salt
    this.pos = 0
  }
  choose(n, label, cost) {
    const i = this.pos++
    const text = labelOf(label)
    const h = hashOf(`${n}:${cost}:${text}`)
    let c = 0
    if (i < this.prefix.length) {
      const p = this.prefix[i]
      if (p.h !== undefined && p.h !== h) throw new HarnessError(`replay diverged at choice ${i}: expected ${p.t ?? p.h}, got ${text}`)
      c = p.c
      if (c >= n) throw new HarnessError(`replay choice ${c} out of range ${n} at ${text}`)
    }
    this.points.push({ n, cost, h, c, t: text })
    return c
  }
  state(logHash, enabled) {
    if (!this.stats) return
    const h = new Hash(this.salt); h.h1 ^= logHash.h1; h.h2 ^= logHash.h2
    for (const e of enabled) h.add(e.label)
    if (this.stats.stateSet.size < 3_000_000) this.stats.stateSet.add(h.value())
    else this.stats.stateOverflow++
  }
  transition() { if (this.stats) this.stats.transitions++ }
}

export const newStats = () => ({ executions: 0, transitions: 0, choicePoints: 0, maxDepth: 0, maxDeviations: 0, scenarios: 0, capped: 0, stateSet: new Set(), stateOverflow: 0, outcomes: new Set(), determinismChecks: 0, samples: [] })

/** run one execution; returns {env, ctx, violation?, harness?} */
export const runOnce = async (check, scenario, prefix, { factories, stats, salt = 0, trace } = {}) => {
  const ctx = new Ctx(prefix, stats, salt)
  let env
  try {
    env = new Env({ ctx, factory: factories[check.bundle ?? 'core'], horizon: check.horizon })
    env.factories = factories
    if (trace) env.trace = []
    escaped.rejections.length = 0
    escaped.onException = (e) => { env.violation ??= e instanceof Violation || e instanceof HarnessError ? e : new Violation(`an exception escapes every handler: ${e?.stack ?? e}`) }
    const outcome = await check.execute(env, scenario)
    if (env.violation) throw env.violation
    if (ctx.pos < prefix.length) throw new HarnessError(`execution ended after ${ctx.pos} choices, prefix has ${prefix.length}`)
    return { ctx, env, outcome }
  }
  catch (e) {
    const err = env?.violation ?? e
    if (err instanceof Violation) return { ctx, env, violation: err }
    // the scenario driver is total on well-formed outputs: an exception in it means the library produced something malformed
    if (!(err instanceof HarnessError) && env) return { ctx, env, violation: new Violation(`driving the library raised ${err?.stack ?? err}`) }
    return { ctx, env, harness: err }
  }
}

/** every schedule of one scenario within `bound` deviations */
export const exploreScenario = async (check, scenario, idx, bound, { factories, stats, beat, maxExec = Infinity, budget }) => {
  const stack = [[]]
  let n = 0
  const salt = hashOf(`s${idx}`) | 0
  stats.scenarios++
  while (stack.length) {
    if (n >= maxExec || budget?.stop()) { stats.capped++; return }
    const prefix = stack.pop()
    beat?.()
    const r = await runOnce(check, scenario, prefix, { factories, stats, salt })
    n++; stats.executions++
    if (r.harness) throw Object.assign(r.harness instanceof Error ? r.harness : new Error(String(r.harness)), { scenario, idx, choices: r.ctx.points.map(p => p.c) })
    if (r.violation) return { idx, scenario, choices: r.ctx.points.map(p => p.c), labels: r.ctx.points.map(p => p.t), message: r.violation.message, detail: r.violation.detail, key: r.violation.key }
    const finalHash = r.env.logHash.value()
    r.ctx.state(r.env.logHash, [{ label: `end:${r.outcome}` }])
    const outcomeHash = r.outcome === undefined ? finalHash : hashOf(String(r.outcome))
    if (stats.outcomes.size < 1_000_000) stats.outcomes.add(outcomeHash)
    if (n === 1 && (idx % 16 === 0)) {
      // the same schedule must give the same observations: otherwise some nondeterminism is not owned
      const again = await runOnce(check, scenario, r.ctx.points.map(p => ({ c: p.c, h: p.h, t: p.t })), { factories, salt })
      if (again.harness || again.violation || again.env.logHash.value() !== finalHash)
        throw Object.assign(new HarnessError(`nondeterministic replay of scenario ${idx}: ${again.harness ?? again.violation ?? 'observation logs differ'}`), { scenario, idx })
      stats.determinismChecks++
    }
    const pts = r.ctx.points
    stats.choicePoints += pts.length - prefix.length
    if (pts.length > stats.maxDepth) stats.maxDepth = pts.length
    let cost = 0
    const costs = pts.map((p) => { const c = cost; if (p.c) cost += p.cost; return c })
    if (cost > stats.maxDeviations) stats.maxDeviations = cost
    for (let i = pts.length - 1; i >= prefix.length; i--) {
      const p = pts[i]
      if (costs[i] + p.cost > bound) continue
      for (let alt = p.n - 1; alt >= 1; alt--)
        stack.push([...pts.slice(0, i).map(q => ({ c: q.c, h: q.h, t: q.t })), { c: alt, h: p.h, t: p.t }])
    }
  }
}
