#!/usr/bin/env python3
"""Mutation run: which small source changes does no check notice?

    run.py OUT.jsonl [FILE-PREFIX...]     (scratch copies under /tmp; /repo is only read)
Appends one line per mutant to OUT.jsonl and skips those already in it."""
import json, os, subprocess, sys, tempfile, threading, queue, time
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
JOBS=int(os.environ.get('MUT_JOBS','4')); stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
P='packages/'; E='packages-ext/'
ORDER=[
 (P+'generate-text/','C01 C03 C07 C04 C13 C06 C08 C16 C05 C18 C14 C15 C23 C40 C41 C42'),
 (P+'stream-text/','C02 C12 C07 C10 C03 C13 C06 C08 C11 C35 C05 C09 C15 C14 C37 C38 C40 C42'),
 (P+'shared-chat/src/utils/stop-when','C33 C03'),
 (P+'shared-chat/src/utils/execute-tool','C04 C05 C06 C12 C01 C13 C21'),
 (P+'shared-chat/src/utils/internal','C01 C04'),
 (P+'shared-chat/','C08 C07 C15 C01 C03'),
 (P+'shared-stream/','C17 C12 C11 C10 C09 C35 C38 C37'),
 (P+'shared/','C41 C15 C16 C12 C31 C04 C37 C39'),
 (P+'stream-object/','C19 C20 C15 C12 C35 C14 C38'),
 (P+'generate-object/','C18 C15'),
 (P+'generate-image/','C30 C15 C16 C14 C39'),
 (P+'generate-transcription/','C31 C15 C16 C39'),
 (P+'generate-speech/','C31 C15 C16'),
 (P+'stream-speech/','C29 C15 C16 C09 C35 C14 C37 C38'),
 (P+'stream-transcription/','C29 C15 C16 C09 C35 C14 C37 C38'),
 (P+'model/','C31 C15 C16 C39'),(P+'embed/','C31 C15 C16'),(P+'tool/','C32 C36'),
 (P+'utils-reasoning/','C26'),(P+'utils-stream/','C27'),(P+'utils-chat/','C34'),
 ('packages-top/xsfetch/','C28 C37'),('packages-top/xsschema/','C36 C32 C18'),
 (E+'responses/','C21 C22 C12 C03 C06 C07 C08 C11 C05 C35 C15 C09 C16 C14 C37 C38 C40 C42'),
 (E+'telemetry/','C23 C24 C35 C37 C38 C39'),(E+'providers/','C25'),
]
files=subprocess.run("git ls-files | grep -E '/src/.*\\.ts$' | grep -vE 'test|generated|/types/|docs/|\\.d\\.ts'",shell=True,cwd='/repo',capture_output=True,text=True).stdout.split()
files=[f for f in files if any(f.startswith(p) for p,_ in ORDER)]
out=sys.argv[1]; pre=sys.argv[2:]
if pre: files=[f for f in files if any(f.startswith(p) for p in pre)]
muts=[json.loads(l) for l in subprocess.run(['node',V+'/tools/mutate/mutants.mjs','/repo',*files],capture_output=True,text=True,check=True).stdout.splitlines()]
key=lambda m:f"{m['file']}:{m['start']}:{m['end']}:{m['repl']}"
done=set()
if os.path.exists(out): done={key(json.loads(l)) for l in open(out)}
todo=queue.Queue()
for m in muts:
    if key(m) not in done: todo.put(m)
total=todo.qsize(); print(len(muts),'mutants,',total,'to do',flush=True)
lock=threading.Lock()
def sh(cmd,cwd=None,env=None,timeout=900):
    try: p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env={**os.environ,**(env or {})},timeout=timeout)
    except subprocess.TimeoutExpired: return 124,''
    return p.returncode,p.stdout
def work():
    s=tempfile.mkdtemp(prefix='mut',dir='/tmp'); sh(f'cp -a /repo {s}/repo'); r=s+'/repo'
    sh(f"sed 's#/repo#{r}#g' /opt/vp/results.py > {s}/results.py; sed 's#/repo#{r}#g; s#/opt/vp/results.py#{s}/results.py#' /opt/vp/test.sh > {s}/test.sh")
    while True:
        try: m=todo.get_nowait()
        except queue.Empty: break
        p=os.path.join(r,m['file']); orig=open(p).read()
        # offsets are UTF-16 based in TypeScript; sources outside the BMP are not expected
        open(p,'w').write(orig[:m['start']]+m['repl']+orig[m['end']:])
        res=dict(m); res['by']=None
        try:
            checks=next(c for q,c in ORDER if m['file'].startswith(q)).split()
            for c in checks:
                if not os.path.exists(f'{V}/checks/{c}.mjs'): continue
                t=time.time(); rc,o=sh(f'node {V}/bin/check.mjs {c} quick',env={'XSAI_REPO':r,'VERIF_OUT':s+'/out','VERIF_WORKERS':os.environ.get('MUT_WORKERS','2')})
                if rc==1: res['by']=c; break
                if rc!=0: res.setdefault('odd',[]).append((c,rc,o[-200:])); 
                if rc==2 and ('Build failed' in o or 'ERROR:' in o): res['by']='build'; break
            if not res['by']:
                rc,_=sh(f'bash {s}/test.sh {s}/t.json',cwd=r,timeout=200)
                try: res['tests']=len(stable-set(json.load(open(s+'/t.json'))['passed']))
                except Exception: res['tests']=-1
        finally:
            open(p,'w').write(orig)
        with lock:
            open(out,'a').write(json.dumps(res)+'\n')
            if not res['by']: print(f"SURVIVES {m['file']}:{m['line']} {m['op']} {m['was']!r} -> {m['repl'][:60]!r} tests={res.get('tests')} left={todo.qsize()}",flush=True)
    sh(f'rm -rf {s}')
ts=[threading.Thread(target=work) for _ in range(JOBS)]
for t in ts: t.start()
for t in ts: t.join()
