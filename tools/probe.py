"""probe MOD KEYSUB LABELSUB: interactive helper; defines o (obligation), pc, goal, prove(f)"""
import os,sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from pyvc import front, verify, discharge, model as M
from pyvc.db import db
import importlib, z3
from pyvc import exec as E
def load(mod, key, lab, n=0, all=False):
    importlib.import_module('contracts.'+mod)
    repo=front.Repo()
    ct=[c for k,c in db.contracts.items() if key in k][0]
    r=verify.verify_function(repo,ct)
    os_=[o for o in r.obls if lab in o.label]
    return os_ if all else os_[n]
def prove(o, goal=None, extra=(), defs=None):
    return discharge.work((0,discharge.to_smt(list(o.pc)+list(extra),o.goal if goal is None else goal, defs),None))
