"""Write contracts/locals.json: locals of the functions under contract, as the contracts name them."""
import glob
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from pyvc import front, names
from pyvc.db import db
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(glob.glob(here + '/contracts/*.py')):
    m = os.path.basename(f)[:-3]
    if m != '__init__':
        importlib.import_module('contracts.' + m)
repo = front.Repo()
out = {}
out['$functions'] = sorted(f.key for m in repo.modules.values() for f in list(m.functions.values()) + [
    x for c in m.classes.values() for x in list(c.methods.values()) + list(c.setters.values())])
names._BASE[:] = [out]
for k in sorted(db.contracts):
    try:
        fi = repo.function(k)
    except Exception:
        fi = None
    if fi is not None:
        b, p = names.bindings(fi.node), names.params(fi.node)
        l = [[k_, t] for _, k_, t in names.flat_loops(fi)]
        if b or p:
            out[k] = dict(locals=b, params=p, loops=l)
for k in out:
    if k[0] != '$':
        fi = repo.function(k)
        assert front.loop_order(fi.node) == names.loops(fi), k
with open(here + '/contracts/locals.json', 'w') as f:
    f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in sorted(out.items())) + '\n}\n')
print(len(out))
