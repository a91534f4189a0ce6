#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / 'properties.jsonl')]
TECH = 'stateless model checking of the real code: exhaustive enumeration of bounded inputs and deviation-bounded environment schedules, each execution compared with a reference model'
NOTE = 'Holds for every scenario and schedule within the bounds recorded in the evidence file (alphabet of server behaviours, callbacks and values; deviation-bounded orders of environment actions). Trusts the reference model in /verif/lib and /verif/checks, Node\'s streams and promises, and esbuild\'s TypeScript stripping.'
checks, na = [], []
for p in props:
    i = p['id']
    if (root / 'checks' / f'{i}.mjs').exists():
        checks.append({'property': i, 'quick_cmd': f'node bin/check.mjs {i} quick', 'thorough_cmd': f'node bin/check.mjs {i} thorough', 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'node bin/setup.mjs', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check bundles the sources of /repo\'s working tree with esbuild at start and runs them under a controlled environment; see DESIGN.md.'}
json.dump(m, open(root / 'MANIFEST.json', 'w'), indent=1); open(root / 'MANIFEST.json', 'a').write('\n')
