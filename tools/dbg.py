import os,sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import sys
sys.setrecursionlimit(10000)
from pyvc import front, verify, discharge, model as M
from pyvc.db import db
import importlib, z3
importlib.import_module('contracts.'+sys.argv[1])
repo=front.Repo()
ct=[c for k,c in db.contracts.items() if sys.argv[2] in k][0]
r=verify.verify_function(repo,ct)
print(r.error)
n=0
for o in r.obls:
    if sys.argv[3] in o.label:
        s=discharge.work((0,discharge.to_smt(o.pc,o.goal),None))
        if s[1]!='unsat':
            n+=1
            if len(sys.argv)>4 and n!=int(sys.argv[4]): continue
            print(o.label,s)
            print('GOAL',o.goal)
            for p in o.pc: print('  --',str(p).replace('\n',' ')[:700])
            break
