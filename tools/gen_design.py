#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, re, glob
V='/verif'; D=V+'/tools/design/'
orc=json.load(open(D+'oracles.json')); hist=json.load(open(D+'history.json'))
out=open(D+'head.md').read()
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
for p in props:
    t=open(f"{V}/checks/{p['id']}.mjs").read()
    b={k:(re.search(k+r": '((?:[^'\\]|\\.)*)'",t) or [0,''])[1].replace("\\'","'") for k in('quick','thorough')}
    d=re.search(r'dev: \{ quick: (\d+), thorough: (\d+)',t)
    tr='' if not re.search(r'^  traced: ',t,re.M) else '- *Telemetry:* '+('part of ' if re.search(r'^  traced: .*only:',t,re.M) else '')+'the chat runs also with the telemetry versions of generateText and streamText.\n'
    out+=f"\n### {p['id']} {p['title']}\n\n- *Oracle:* {orc[p['id']]}.\n- *Enumerated (quick, ≤ {d[1]} deviation(s)):* {b['quick']}.\n- *Thorough (≤ {d[2]}):* {b['thorough']}.\n{tr}- *Why tests cannot:* {p['why_tests_cant']}\n"
out+="\n## 3. Planted bugs\n\n`tools/seed/plant.py` judges each in scratch copies: patch applies, type-checks, the repository's tests pass, the demonstration fails with it and passes without it, and the property's quick check is run on the patched tree. All of those kept (`seeded/`) are caught by the check of their property; where a check missed one at first, the last column says what was missing.\n\n| id | property | what it breaks / needs | history |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    c=lambda s:s.replace('|','\\|').replace('\n',' ')
    out+=f"| {i} | {m['property']} | {c(m['what_it_breaks'])} — needs {c(m['needs'])} | {m.get('history') or hist.get(i,'')} |\n"
tail=open(D+'tail.md').read()
k=open(V+'/known_findings.txt').read().splitlines()
tail=tail.replace('@@FIXED@@','\n'.join('- '+l[7:].replace('property=','') for l in k if l.startswith('fixed:')))
tail=tail.replace('@@KNOWN@@','\n'.join('- '+l[len('KNOWN-FINDING: property='):] for l in k if l.startswith('KNOWN-FINDING')))
open(V+'/DESIGN.md','w').write(out+'\n'+tail)
