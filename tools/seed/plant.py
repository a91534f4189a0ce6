#!/usr/bin/env python3
"""Write planted bugs into /verif/seeded and judge them in a scratch copy.

    plant.py SPEC.py [ID...]      SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
    plant.py --check [ID...]      only re-run what is in /verif/seeded

For each: the patch applies, tsc and the stable tests pass, the demonstration passes without and fails with
the patch, and what the property's check says. Never touches /repo.
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, threading, runpy
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEED = os.path.join(V, 'seeded')
BASE = '70f9697'
N = int(os.environ.get('PLANT_JOBS', '3'))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout

def write(bug):
    d = os.path.join(SEED, bug['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plantw')
    try:
        sh(f'git -C /repo worktree prune; git clone -q --shared /repo {tmp}/r')
        r = tmp + '/r'
        for f, old, new in bug['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{bug['id']}: {f}: {s.count(old)} matches of {old!r}")
            open(p, 'w').write(s.replace(old, new))
        _, diff = sh('git diff', cwd=r)
        open(d + '/patch.diff', 'w').write(diff)
        # which of the removed lines are lines of the original repository?
        orig = 0
        for f, *_ in bug['edits']:
            _, b = sh(f'git show {BASE}:{f}', cwd=r)
            base_lines = set(b.split('\n'))
            _, fd = sh(f'git diff -- {f}', cwd=r)
            for l in fd.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                    orig += l[1:] in base_lines
        if not orig:
            print(f"{bug['id']}: WARNING: no original line changed")
    finally:
        shutil.rmtree(tmp)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.mjs"\n')
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.mjs', 'w').write("import { answer, base, bytes, call, clone, delta, json, load, main, mkTool, mockFetch, outcome, read, rsse, sleep, sse, usage } from './demolib.mjs'\n\n" + bug['demo'].strip() + '\n')
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'demolib.mjs'), d)
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)

scratches, lock = [], threading.Lock()
def take():
    with lock:
        if scratches: return scratches.pop()
    d = tempfile.mkdtemp(prefix='plants')
    sh(f'cp -a /repo {d}/repo')
    return d

def judge(bid):
    d = os.path.join(SEED, bid); meta = json.load(open(d + '/meta.json'))
    s = take(); r = s + '/repo'; res = {'id': bid, 'property': meta['property']}
    try:
        sh('git checkout -q -- . && git clean -fdq', cwd=r)
        dd = s + '/demo'; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, out = sh(f'bash {dd}/demo.sh', cwd=r, timeout=300); res['demo_clean'] = rc
        if rc: res['out'] = out[-1500:]; return res
        rc, out = sh(f'git apply {d}/patch.diff', cwd=r)
        if rc: res['out'] = out; return res
        rc, out = sh('/opt/veriftools/node/node_modules/.bin/tsc --noEmit -p tsconfig.json', cwd=r); res['tsc'] = rc
        if rc: res['out'] = out[-800:]
        rc, out = sh(f'bash {dd}/demo.sh', cwd=r, timeout=300); res['demo_bug'] = rc
        sh(f"sed 's#/repo#{r}#g' /opt/vp/results.py > {s}/results.py; sed 's#/repo#{r}#g; s#/opt/vp/results.py#{s}/results.py#' /opt/vp/test.sh > {s}/test.sh; bash {s}/test.sh {s}/out.json", cwd=r)
        failed = stable - set(json.load(open(s + '/out.json'))['passed']); res['tests'] = len(failed)
        if failed: res['out'] = str(sorted(failed)[:3])
        import time; t = time.time()
        if os.environ.get('PLANT_NOCHECK'): return res
        others = os.environ.get('PLANT_CHECKS', '').split() or [meta['property']]
        for c in others:
            ev = s + '/ev'; os.makedirs(ev, exist_ok=True)
            rc, out = sh(f'node {V}/bin/check.mjs {c} {os.environ.get("PLANT_TIER", "quick")}', cwd=V, env={'XSAI_REPO': r, 'VERIF_OUT': ev, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            hit = [l for l in out.split('\n') if l.startswith(f'VIOLATION property={c}')]
            res.setdefault('checks', {})[c] = f"rc={rc} {'CAUGHT' if rc == 1 and hit else 'MISSED'} {time.time()-t:.0f}s"
            res['say'] = '\n'.join(out.strip().split('\n')[-4:])[-600:]
        return res
    finally:
        with lock: scratches.append(s)

def main():
    a = sys.argv[1:]
    if a[0] == '--check':
        ids = a[1:] or sorted(os.listdir(SEED))
    else:
        bugs = runpy.run_path(a[0])['BUGS']
        if a[1:]: bugs = [b for b in bugs if b['id'] in a[1:]]
        for b in bugs: write(b)
        ids = [b['id'] for b in bugs]
    bad = 0
    try:
        with cf.ThreadPoolExecutor(N) as ex:
            for res in ex.map(judge, ids):
                ok = res.get('demo_clean') == 0 and res.get('demo_bug') not in (0, None) and res.get('tsc') == 0 and res.get('tests') == 0
                print(('VALID  ' if ok else 'INVALID'), res['id'], {k: v for k, v in res.items() if k not in ('id', 'say', 'out')}, flush=True)
                if not ok: print('   ', res.get('out', ''))
                if ok and os.environ.get('PLANT_SAY'): print('   ', res.get('say'))
    finally:
        for s in scratches: shutil.rmtree(s)

main()
