// What a check explores: its own scenarios and, where it asks for it (traced), each run of a text call once more with the telemetry versions.
export function* scenariosOf(check, tier) {
  yield* check.scenarios(tier)
  const t = check.traced
  if (!t) return
  const cap = t[tier] ?? 0
  for (const s of check.scenarios(tier)) {
    if (s.proto !== undefined && s.proto !== 'gen' && s.proto !== 'stream') continue
    if (t.only && !t.only(s, tier)) continue
    yield { ...s, dev: Math.min(s.dev ?? check.dev?.[tier] ?? 0, cap), traced: true }
  }
}
export const bundlesOf = check => [...new Set([check.bundle ?? 'core', ...(check.bundles ?? []), ...(check.traced ? ['telemetry'] : [])])]
