#!/usr/bin/env python3
"""Which planted bugs the quick-size search finds.  Not part of any check.

  eval_seeds.py [-all] [ID...]     -all: search under every property, not only the bug's own
"""
import json,os,sys,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import benign
from benign import sh,search,VERIF,SCRATCH
sys.path.insert(0,VERIF+'/bin')
import plan
SRC=SCRATCH+'/seedrepo'
os.makedirs(SCRATCH,exist_ok=True)
if not os.path.isdir(SRC): sh('git clone -q /repo '+SRC)
ids=[a for a in sys.argv[1:] if a[0]!='-'] or sorted(os.listdir(VERIF+'/seeded'))
for i in ids:
    d=VERIF+'/seeded/'+i; own=json.load(open(d+'/meta.json'))['property']
    sh('git -C %s checkout -q -- . && git -C %s pull -q'%(SRC,SRC))
    r=sh('git -C %s apply %s/patch.diff'%(SRC,d))
    if r.returncode: print(i,'does not apply',r.stdout); continue
    for p in [own]+([q for q in ['C%02d'%k for k in range(1,16)] if q!=own] if '-all' in sys.argv else []):
        t=time.time(); rc,out=search(SRC,p,plan.PLAN[p]['runs'],os.environ.get('SEED','1'),75 if p==own else 15)
        print(i,p,{0:'missed',1:'CAUGHT'}.get(rc,'rc %d'%rc),'%.0f s'%(time.time()-t),flush=True)
        if rc not in(0,1): print(out[-800:])
sh('git -C %s checkout -q -- .'%SRC)
