"""Verification of one function against its contract."""
import time
import traceback

import z3

from . import model as M
from . import types as T
from . import exec as E
from . import names as NM
from . import calls
from .db import db
from .front import Repo


class Result(object):
    def __init__(self, key):
        self.key = key
        self.obls = []
        self.error = None
        self.assumptions = []
        self.callees = []
        self.inlined = []
        self.notes = []
        self.paths = 0
        self.gen_s = 0.0


def all_comps(repo):
    comps = list(E.BASE_COMPS)
    attrs = set()
    for c, fs in db.fields.items():
        if c in T.DICT_CLASSES:
            continue
        attrs.update(fs)
    for c, itf in db.interface.items():
        attrs.update(itf.get('props', {}))
    comps += ['f.' + a for a in sorted(attrs)]
    comps += ['g.' + g for g in sorted(db.mutable_globals)]
    return comps


def entry_state(ex):
    st = E.State()
    for comp in all_comps(ex.repo):
        st.h[comp] = z3.Const('init.' + comp, M.comp_sort(comp))
    st.alloc = z3.Int('init.alloc')
    st.assume(st.alloc >= 0)
    ex.wf(st, list(st.h))
    st.assume(st.h['trn'] >= 0)
    for g, t in db.mutable_globals.items():
        st.assume(T.typed(st.H, st.h['g.' + g], T.parse(t)))
        st.assume(st.h['g.' + g] != M.ABSENT)
    return st


def verify_function(repo, ct):
    t0 = time.time()
    M._fresh[0] = 0
    db.externals.used.clear()
    res = Result(ct.key)
    for n, src in db.clients.items():
        if n not in repo.modules:
            repo.add_client(n, src)
    fi = repo.function(ct.key)
    if fi is None:
        res.error = 'function %s is not defined in the current source' % ct.key
        return res
    ex = E.Executor(repo, ct, fi)
    try:
        run(ex, ct, fi, res)
    except M.Unsupported as e:
        res.error = 'unsupported: %s (%s line %s)' % (e, ct.key, ex.line)
    except RecursionError:
        res.error = 'recursion limit (%s)' % ct.key
    except Exception as e:     # defect of the machinery: never accepted
        res.error = 'internal: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    res.obls = ex.obls
    res.callees = sorted(ex.callees)
    res.inlined = sorted(ex.inlined)
    res.notes = ex.notes
    res.nfeas = ex.nfeas
    res.externals = sorted(db.externals.used)
    res.gen_s = time.time() - t0
    return res


def run(ex, ct, fi, res):
    st = entry_state(ex)
    a = fi.node.args
    params = calls.params_of(fi, ct)
    loc = {}
    terms = {}
    for p, q in zip(params, NM.contract_params(fi, params)):
        ty = T.parse(ct.types.get(q)) if q in ct.types else ('any',)
        if p == 'self' and p not in ct.types and fi.cls is not None:
            ty = ('obj', fi.cls.name)
            if ex.repo.is_exc_class(fi.cls.name):
                ty = ('exc', fi.cls.name)
        t = z3.Const('a_' + p, M.V)
        if ty == ('bool',):
            t = M.V.bool(z3.Bool('a_' + p))
        elif ty == ('str',):
            t = M.V.str(z3.Const('a_' + p, M.S))
        elif ty == ('int',):
            t = M.V.int(z3.Int('a_' + p))
        else:
            st.assume(t != M.ABSENT)
            st.assume(M.Imp(M.V.is_ref(t), M.And(M.V.r(t) >= 0, M.V.r(t) < st.alloc)))
            st.assume(T.typed(st.H, t, ty))
            if ty[0] == 'obj':
                st.assume(*[st.H.inst(t, c) for c in ex.repo.mro(ty[1])[1:] if c in ex.repo.classes])
        loc[p] = E.SV(t, ty)
        terms[p] = terms[q] = t
    pre = calls.snapshot(st)
    ghost = {}
    P = calls.Pre(pre, calls.Args(terms), ghost)
    fr = E.Frame(fi, ct, parent=None, pre=P)
    ex.top = fr
    st.frame = fr
    st.loc = dict(loc)
    if a.kwarg:
        # unknown keyword arguments, to be passed on only
        st.loc[a.kwarg.arg] = E.SV(M.fconst('kwargs', M.V), ('kwargs',))
    c = E.Ctx(pre=pre, h=pre, a=P.args, M=M, alloc0=pre.alloc, ex=ex, g=ghost, exc=None)
    for name, sort in getattr(ct, 'ghost', {}).items():
        ghost[name] = z3.Const('gh_' + name, {'V': M.V, 'I': M.I, 'B': z3.BoolSort()}[sort])
    for l, b in calls.call_fn(ct.requires, c):
        ex.given(st, 'req:%s' % l, b)
    for l, b in calls.call_fn(ct.entry, c):
        st.assume(b)
    if ex.refuted(st, z3.BoolVal(True)):
        raise M.Unsupported('contradictory precondition')
    gen = fi.is_generator
    if gen:
        st.loc['$gen'] = ex.new_list(st, [])
        st.loc['$gen'].lit = None
    outs = ex.block(fi.node.body, st)
    normal = False
    res.paths = len(outs)
    for kind, s, v in outs:
        if kind in ('ret', 'next'):
            if gen:
                v = s.loc['$gen']
            elif kind == 'next':
                v = ex.const(None)
            v = ex.sv(s, v)
            normal = True
            check_normal(ex, ct, fi, c, s, v)
        elif kind == 'exc':
            check_exc(ex, ct, fi, c, s, v)
        else:
            raise M.Unsupported('outcome %s' % kind)
    if not normal and not getattr(ct, 'noreturn', False):
        raise M.Unsupported('no normal return is reachable')
    # vacuity guard: at least one normal path must not be refutable
    if normal and not getattr(ct, 'noreturn', False):
        if all(ex.refuted(s, z3.BoolVal(True)) for k, s, v in outs if k in ('ret', 'next')):
            raise M.Unsupported('all normal paths are infeasible')


def check_normal(ex, ct, fi, c, s, v):
    name = fi.qual
    rty = T.parse(ct.result)
    if not calls.trivially(v, rty) and rty != ('any',):
        ex.oblige(s, '%s:result type %s' % (name, ct.result), T.typed(s.H, v.t, rty), 'post')
    if not ct.allocs and not s.alloc.eq(c.alloc0):
        # new objects are garbage: nothing refers to them
        if any(f is None or f != 0 for k, f in ct.modifies.items() if k not in ('tr', 'trn')):
            raise M.Unsupported('allocs=False with modifies')
        old = lambda x: M.Imp(M.V.is_ref(x), M.V.r(x) < c.alloc0)
        ex.oblige(s, '%s:allocates nothing visible' % name, M.And(old(v.t), *[
            M.Imp(M.tup_is(v.t, n), M.And(*[M.And(old(M.tup_at(v.t, n, i)), M.Not(M.V.is_t2(M.tup_at(v.t, n, i))))
                                           for i in range(n)])) for n in (1, 2, 3, 4)]), 'post')
    c2 = E.Ctx(pre=c.pre, post=s.H, h=s.H, a=c.a, M=M, alloc0=c.alloc0, ex=ex, g=c.g, res=v.t, locals=s.loc, st=s, marks=s.marks)
    hf = getattr(ct, 'hints', None)
    s0 = s
    if hf is not None:
        # intermediate assertions: proved, then used
        s = s.copy()
        for l, b, u in map(E.item, calls.call_fn(hf, c2)):
            ex.oblige(s, '%s:assert %s' % (name, l), b, 'post', u)
            ex.given(s, 'assert:%s' % l, b)
    for l, b, u in map(E.item, calls.call_fn(ct.ensures, c2)):
        ex.oblige(s, '%s:ensures %s' % (name, l), b, 'post', u)
    s = s0
    check_frame(ex, ct, c, s, '%s:frame' % name)


def check_exc(ex, ct, fi, c, s, exc):
    name = fi.qual
    sub = ex.repo.exc_sub
    keys = []
    for a in ct.raises:
        if sub(exc.name, a):
            keys.append(a)
            break
        if exc.open is not None and sub(a, exc.name) and not any(sub(a, x) for x in exc.open):
            keys.append(a)      # it may be one of these
    else:
        # handler classes may be subclasses: the path must be infeasible
        ex.oblige(s, '%s:no %s escapes (line %s)' % (name, exc.name, ''), z3.BoolVal(False), 'exc')
        return
    for best in keys:
        cond = ct.raises[best]
        if cond is not None:
            ex.oblige(s, '%s:%s only when allowed' % (name, best), calls.call_fn(cond, c), 'exc')
        c2 = E.Ctx(pre=c.pre, post=s.H, h=s.H, a=c.a, M=M, alloc0=c.alloc0, ex=ex, g=c.g,
                   exc=exc.sv.t, st=s)
        for l, b in calls.call_fn(ct.ens_exc, c2, best):
            ex.oblige(s, '%s:%s ensures %s' % (name, best, l), b, 'exc')
    check_frame(ex, ct, c, s, '%s:%s frame' % (name, keys[-1]))


def check_frame(ex, ct, c, s, label):
    for comp in s.h:
        if comp in ('par', 'pk'):
            continue
        new, old = s.h[comp], c.pre.c.get(comp)
        if old is None or new.eq(old):
            continue
        if comp.startswith('g.'):
            if comp not in ct.modifies:
                ex.oblige(s, '%s:%s' % (label, comp), new == old, 'frame')
            continue
        if comp in ('tr', 'trn'):
            if 'tr' in ct.modifies or 'trn' in ct.modifies:
                continue
            if comp == 'trn':
                ex.oblige(s, '%s:%s' % (label, comp), new == old, 'frame')
            continue
        f = ct.modifies.get(comp, 0)
        if f is None:
            continue
        r = M.fconst('fr', M.I)
        guard = M.And(r >= 0, r < c.alloc0)
        if f != 0:
            guard = M.And(guard, M.Not(calls.region(f, c)(r)))
        s2 = s.copy()
        s2.assume(guard)
        ex.oblige(s2, '%s:%s' % (label, comp), z3.Select(new, r) == z3.Select(old, r), 'frame')
