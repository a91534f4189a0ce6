#!/usr/bin/env node
import { runCheck } from '../lib/main.mjs'
const id = process.argv[2]
const tier = process.argv[3] ?? process.env.VERIF_TIER ?? 'quick'
process.exitCode = await runCheck(id, tier === 'thorough' ? 'thorough' : 'quick').catch((e) => { console.error(e?.stack ?? e); return 2 })
