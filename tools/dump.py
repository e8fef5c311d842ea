import os,sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sys
sys.setrecursionlimit(10000)
from pyvc import front, verify, discharge, model as M
from pyvc.db import db
import importlib, z3, os
importlib.import_module('contracts.'+sys.argv[1])
repo=front.Repo()
ct=[c for k,c in db.contracts.items() if sys.argv[2] in k][0]
r=verify.verify_function(repo,ct)
n=0
os.makedirs('/tmp/smt',exist_ok=True)
for o in r.obls:
    if sys.argv[3] in o.label:
        t=discharge.to_smt(o.pc,o.goal)
        s=discharge.work((0,t,None))
        if s[1]!='unsat':
            open('/tmp/smt/%d.smt2'%n,'w').write(t); print(n,o.label); n+=1
