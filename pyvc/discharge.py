"""Discharge obligations with SMT solvers, in parallel."""
import multiprocessing
import os
import subprocess
import tempfile
import time

import z3
z3.set_param("warning", False)

from . import model as M

CVC5 = '/usr/bin/cvc5'
RL1 = int(os.environ.get('VERIF_RLIMIT', '8000000'))
RL2 = RL1 * 4


def to_smt(pc, goal, defs=None):
    s = z3.Solver()
    for f in pc:
        s.add(f)
    s.add(z3.Not(goal))
    if M.OPAQUE:
        text = s.sexpr()
        added = set()
        while True:
            new = [n for n in M.OPAQUE if n not in added and n in text and (defs is None or n in defs)]
            if not new:
                break
            for n in new:
                added.add(n)
                ax = M.OPAQUE[n] if isinstance(M.OPAQUE[n], list) else [M.OPAQUE[n]]
                for a in ax:
                    s.add(a)
                    text += a.sexpr()
    return s.to_smt2()


def _solve(text, rlimit, conf):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set('rlimit', rlimit)
    s.set('smt.mbqi', False)
    s.set('smt.auto_config', False)
    for k, v in conf.items():
        s.set(k, v)
    s.from_string(text)
    t = time.time()
    r = s.check()
    return str(r), time.time() - t, (s.reason_unknown() if str(r) == 'unknown' else '')


Z3CLI = '/usr/bin/z3'

CONFS = [
    ('z3-4.8', None, RL1 // 4),
    ('z3-5', {}, RL1 // 4),
    ('z3-4.8 relevancy 0', ['smt.relevancy=0'], RL1 // 2),
    ('z3-4.8 default', 'default', RL1 // 2),
    ('z3-4.8 seed 7', ['smt.random_seed=7', 'smt.qi.eager_threshold=50'], RL1),
    ('z3-5 seed 3', {'smt.case_split': 3, 'smt.random_seed': 3}, RL1),
    ('z3-4.8 long', ['smt.random_seed=1'], RL2),
    ('cvc5', None, RL1 // 80),
]


def _cvc5(text, rlimit):
    t = time.time()
    p = subprocess.run([CVC5, '--lang=smt2', '--rlimit=%d' % rlimit], input=text, capture_output=True, text=True)
    out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    return out if out in ('sat', 'unsat') else 'unknown', time.time() - t, ''


def _cli(text, rlimit, conf):
    t = time.time()
    opts = ['auto_config=false', 'smt.mbqi=false'] + list(conf or []) if conf != 'default' else []
    p = subprocess.run([Z3CLI, '-in', 'rlimit=%d' % rlimit] + opts,
                       input=text, capture_output=True, text=True)
    out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    if out not in ('sat', 'unsat', 'unknown'):
        out = 'unknown'
    return out, time.time() - t, p.stdout.strip()[:200]


def work(item):
    i, text, small = item
    total = 0.0
    last, why = 'unknown', ''
    if small is not None:
        r, dt, why = _cli(small, RL1, None)
        total += dt
        if r == 'unsat':
            return i, 'unsat', 'z3-4.8 selected hypotheses', total, ''
    for name, conf, rl in CONFS:
        try:
            if name == 'cvc5':
                r, dt, why = _cvc5(text, rl)
            elif name.startswith('z3-4.8'):
                r, dt, why = _cli(text, rl, conf)
            else:
                r, dt, why = _solve(text, rl, conf)
        except z3.Z3Exception as e:
            r, dt, why = 'unknown', 0.0, str(e)[:200]
        total += dt
        last = r
        if r == 'unsat':
            return i, 'unsat', name, total, ''
    return i, last, 'z3', total, why


def prepare(obls):
    """-> list of (smt text or None if trivial, smt text with selected hypotheses or None)"""
    out = []
    for o in obls:
        if z3.is_true(z3.simplify(o.goal)):
            out.append((None, None))
        else:
            out.append((to_smt(o.pc, o.goal), to_smt(o.small[0], o.goal, o.small[1]) if o.small is not None else None))
    return out


def discharge(obls, jobs=8, progress=None, deadline=None):
    return solve(prepare(obls), jobs, progress, deadline)


def solve(texts, jobs=8, progress=None, deadline=None):
    """-> list of (status, backend, seconds, reason) per obligation."""
    items = []
    out = [None] * len(texts)
    seen = {}
    dup = {}
    for i, (text, small) in enumerate(texts):
        if text is None:
            out[i] = ('unsat', 'simplifier', 0.0, '')
            continue
        if text in seen:
            dup[i] = seen[text]
            continue
        seen[text] = i
        items.append((i, text, small))
    if items:
        with multiprocessing.Pool(min(jobs, len(items))) as pool:
            it = pool.imap_unordered(work, items, chunksize=1)
            for _ in items:
                try:
                    i, r, name, dt, why = it.next(None if deadline is None else max(0.1, deadline - time.time()))
                except multiprocessing.TimeoutError:
                    break
                out[i] = (r, name, dt, why)
                if progress:
                    progress(i, out[i])
    for i, _, _ in items:
        if out[i] is None:
            out[i] = ('unknown', 'none', 0.0, 'time limit of the check')
    for i, j in dup.items():
        out[i] = out[j]
    return out
