import os,sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sys, time
sys.setrecursionlimit(10000)
import z3; z3.set_param("warning", False)
from pyvc import front, verify, discharge
from pyvc.db import db
import importlib
mods=sys.argv[1].split(',')
for m in mods: importlib.import_module('contracts.'+m)
repo=front.Repo()
sel=sys.argv[2:] 
for k,ct in list(db.contracts.items()):
    if ct.trusted or k.startswith('iface:'): continue
    if sel and not any(s in k for s in sel): continue
    r=verify.verify_function(repo,ct)
    t=time.time()
    ds=discharge.discharge(r.obls)
    bad=[(o,d) for o,d in zip(r.obls,ds) if d[0]!='unsat']
    print('%-60s paths %d obls %d ok %d  gen %.1fs solve %.1fs (feas %d) max %.1f %s'%(k,r.paths,len(r.obls),len(r.obls)-len(bad),r.gen_s,time.time()-t,getattr(r,'nfeas',0),max([d[2] for d in ds] or [0]),r.error or ''))
    for o,d in bad: print('     FAIL',o.label,d)
    for n in r.notes: print('     note',n)
    for o,d in sorted(zip(r.obls,ds), key=lambda x:-x[1][2])[:3]:
        if d[2]>5: print('     slow',o.label,d[:3])
