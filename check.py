"""Decides one property.  check.py PID   (run through run.sh: python3-vt, PYTHONHASHSEED=0)

1. deductive part: every contract listed for the property in props.py, and
   every contract those functions are checked against, is verified on the
   current source of /repo; all obligations must be discharged.
2. concrete part: the oracle of the property (oracle/pNN.py) replays the
   property on the real code; it supplies the failing input for a failed
   obligation, and is the labelled bounded stand-in for what has no contract.

Exit 0: everything discharged and the oracle is quiet (up to known findings).
Exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import collections
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
PY = '/opt/venv/bin/python'
EV = os.path.join(HERE, 'evidence')


def run_oracle(pid, tier, seed, out, limit):
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONHASHSEED='0',
               PYTHONDONTWRITEBYTECODE='1')
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'oracle', 'runner.py'), pid, out], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
        if os.path.exists(out):
            return json.load(open(out))
        return dict(crash=p.stdout[-2000:], violations=[], evaluations=0, errors=[])
    except subprocess.TimeoutExpired:
        return dict(crash='time limit of %d s' % limit, violations=[], evaluations=0, errors=[])


class OutOfTime(BaseException):
    pass


def alarm(*_):
    raise OutOfTime()


def generate(a):
    """Obligations of one function, as solver input (in a process of its own)."""
    from pyvc import verify, discharge
    from pyvc.db import db
    repo, k, secs = a
    signal.signal(signal.SIGALRM, alarm)
    try:
        signal.alarm(int(max(1, secs)))
        r = verify.verify_function(repo, db.contracts[k])
        texts = discharge.prepare(r.obls)
        signal.alarm(0)
    except OutOfTime:
        r = verify.Result(k)
        r.error = 'time limit of the check'
        texts = []
    obls = [(o.label,) + t for o, t in zip(r.obls, texts)]
    r.obls = []
    return k, r, obls


GEN = []
LEMMAS = 'axioms of the specification functions (pyvc/lemmas.py)'


def _generate(i):
    return generate(GEN[i])


def prove(P, limit=600):
    """-> dict with functions, obligations, failures."""
    t0 = time.time()
    from pyvc import front, verify, discharge
    from pyvc.db import db
    for m in P.get('modules', []):
        importlib.import_module('contracts.' + m)
    repo = front.Repo()
    todo = list(P['keys']) if 'keys' in P else [
        k for k, ct in db.contracts.items() if not ct.trusted and not ct.inline and not k.startswith('iface:')]
    done, results, order = set(), {}, []
    ext, trusted, deferred = set(), set(), {}
    allobl = []
    while todo:
        wave = []
        for k in todo:
            if k in done:
                continue
            done.add(k)
            ct = db.contracts.get(k)
            if ct is None:
                results[k] = None
            elif ct.trusted or k.startswith('iface:'):
                trusted.add(k)
            elif k in P.get('defer', {}):
                deferred[k] = P['defer'][k]     # its contract is discharged by the check of that property
            elif not ct.inline:
                wave.append(k)
        todo = []
        if not wave:
            break
        # every function in a fresh process: generation does not depend on what came before
        GEN[:] = [(repo, k, limit * 0.6 - (time.time() - t0)) for k in wave]
        with multiprocessing.get_context('fork').Pool(min(8, len(wave)), maxtasksperchild=1) as pool:
            for k, r, obls in pool.imap(_generate, range(len(wave)), chunksize=1):
                results[k] = r
                order.append(k)
                ext |= set(getattr(r, 'externals', ()))
                todo.extend(r.callees)
                allobl.extend((k,) + o for o in obls)
    from pyvc import lemmas
    for l, h, g, names in lemmas.obligations() if order else ():
        allobl.append((LEMMAS, l, discharge.to_smt(h, g, names), None))
    if order:
        results[LEMMAS] = verify.Result(LEMMAS)
        order.append(LEMMAS)
    counts = collections.Counter(k for k, _, _, _ in allobl)
    ds = discharge.solve([(t, s) for _, _, t, s in allobl], deadline=t0 + limit) if allobl else []
    functions, failures, back = {}, [], collections.Counter()
    solver = 0.0
    for k in order:
        r = results[k]
        functions[k] = dict(obligations=counts[k], discharged=0, paths=r.paths, gen_s=round(r.gen_s, 2),
                            inlined=r.inlined)
        if r.error:
            failures.append(dict(function=k, obligation='within the verified subset', detail=r.error))
    for (k, label, _t, _s), d in zip(allobl, ds):
        solver += d[2]
        if d[0] == 'unsat':
            functions[k]['discharged'] += 1
            back[d[1]] += 1
        else:
            failures.append(dict(function=k, obligation=label, detail='%s: %s %s' % (d[0], d[1], d[3])))
    for k in P.get('keys', []):
        if results.get(k, 1) is None:
            failures.append(dict(function=k, obligation='contract', detail='no contract'))
    return dict(functions=functions, failures=failures, backends=dict(back), solver_s=round(solver, 1),
                obligations=len(allobl), discharged=sum(f['discharged'] for f in functions.values()),
                externals=sorted(ext), trusted=sorted(trusted), deferred=deferred,
                notes={k: results[k].notes for k in order if results[k].notes})


def known(pid):
    """Known findings of the property: list of (case, input, text)."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        if line.startswith('known: property=%s ' % pid):
            d = json.loads(line.split(' ', 2)[2])
            out.append((d['case'], d['input'], d['what']))
    return out


def main():
    pid = sys.argv[1]
    import props
    P = props.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EV, exist_ok=True)
    rdir = os.path.join(EV, 'replay')
    os.makedirs(rdir, exist_ok=True)
    t0 = time.time()
    box = {}
    th = threading.Thread(target=lambda: box.update(o=run_oracle(
        pid, tier, seed, os.path.join(EV, pid + '.oracle.json'), 300 if tier == 'quick' else 2500)))
    th.start()
    pr = prove(P, 600 if tier == 'quick' else 3000) if P.get('modules') else dict(
        functions={}, failures=[], backends={}, solver_s=0.0, obligations=0, discharged=0, externals=[], trusted=[], deferred={}, notes={})
    th.join()
    orc = box['o']
    kn = known(pid)
    hits, viol = [], []
    for v in orc['violations']:
        m = [k for k in kn if k[0] == v['case'] and k[1] == v['input']]
        (hits if m else viol).append(v)
    escalated = None
    if pr['failures'] and not viol:
        # look harder for an input that shows the failed obligation
        for i in range(2):
            left = (860 if tier == 'quick' else 3400) - (time.time() - t0)
            if left < 20:
                break
            escalated = run_oracle(pid, 'thorough' if i else 'quick', seed + 1 + i,
                                   os.path.join(EV, pid + '.oracle2.json'), int(min(180, left)))
            viol = [v for v in escalated['violations'] if (v['case'], v['input']) not in [k[:2] for k in kn]]
            if viol:
                break
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    status = 0
    if pr['failures'] or viol:
        status = 1
    nviol = len(viol) if viol else len(pr['failures'])
    for f in pr['failures'][:20]:
        print('obligation failed: %s: %s  [%s]' % (f['function'], f['obligation'], f['detail'].strip().split('\n')[0][:200]))
    level = P['level']
    base = ['pyvc: weakest-precondition style symbolic execution of the current AST of /repo (machinery of /verif)',
            'z3 4.8.12 and z3 5 (either accepting)', 'Python semantics as modelled in pyvc (see DESIGN.md)']
    cov = dict(
        obligations=pr['obligations'], discharged=pr['discharged'],
        checker_cmd='bash run.sh %s' % pid,
        trusted_base=base + ['contract of ' + t for t in pr['trusted']] + ['external ' + e for e in pr['externals']],
        functions_under_contract=pr['functions'], contracts_discharged_by_other_checks=pr['deferred'], back_ends=pr['backends'], solver_s=pr['solver_s'],
        evaluations=orc.get('evaluations', 0), distinct_nontrivial=orc.get('nontrivial', 0),
        rule=orc.get('rule', ''), samples=orc.get('samples', [])[:6],
        oracle_cases=orc.get('cases', {}), oracle_skipped=orc.get('skipped', {}),
        oracle_errors=orc.get('errors', [])[:3], oracle_crash=orc.get('crash', ''),
        bounded_standins=P.get('bounded', []),
        explanation=P.get('explanation', 'contracts discharged for all inputs; concrete oracle replays the property on the real code'))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(EV, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d concrete cases (%d non-trivial), %.1f s' % (
        pid, len([k for k in pr['functions'] if k != LEMMAS]), pr['discharged'], pr['obligations'], orc.get('evaluations', 0), orc.get('nontrivial', 0),
        time.time() - t0))
    if orc.get('skipped'):
        print('oracle cases skipped:', orc['skipped'])
    if orc.get('errors') or orc.get('crash'):
        print('oracle errors:', orc.get('errors', [])[:1], orc.get('crash', ''))
    if status:
        rp = os.path.join(rdir, pid + '.json')
        if viol:
            v = viol[0]
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, case=v['case'], input=v['input'], what=v['what'],
                               failed_obligations=pr['failures'],
                               how='%s %s/oracle/runner.py %s /dev/null --replay %s' % (PY, HERE, pid, rp)), f, indent=1)
            print('failing input (%s): %s' % (v['case'], v['input'][:400]))
            print('  ' + v['what'][:600])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, failed_obligations=pr['failures'], case=None, input=None,
                               how='bash run.sh %s' % pid), f, indent=1)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    sys.exit(status)


if __name__ == '__main__':
    main()
