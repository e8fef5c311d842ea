"""Symbolic execution of the current source against contracts."""
import ast
import string as _string

import z3

from . import model as M
from . import names as NM
from . import types as T
from .db import db
from .front import (Repo, FuncInfo, loop_order, walk_own, LOOPS, ALIAS_EXC)

Unsupported = M.Unsupported

# default components; attribute components are added from the database
BASE_COMPS = ['dm', 'll', 'le', 'par', 'pk', 'trn', 'tr']

ANY = ('any',)


class SV(object):
    """A Python value: a V term plus a type hint."""
    __slots__ = ('t', 'ty', 'lit', 'snap')

    def __init__(self, t, ty=ANY, lit=None, snap=None):
        self.t = t
        self.ty = ty
        self.lit = lit      # tuple/list literal: python list of SV
        self.snap = snap    # list built from a dict view

    def __repr__(self):
        return 'SV(%s:%s)' % (self.t, self.ty)


class FuncV(object):
    def __init__(self, fi, closure=None, frame=None, bound=None):
        self.fi = fi
        self.closure = closure
        self.frame = frame
        self.bound = bound


class LambdaV(object):
    def __init__(self, node, closure, module, frame=None):
        self.node = node
        self.closure = closure
        self.module = module
        self.frame = frame


class ClassV(object):
    def __init__(self, name, ci=None):
        self.name = name
        self.ci = ci


class ModV(object):
    def __init__(self, name):
        self.name = name


class ExtV(object):
    def __init__(self, name):
        self.name = name


class BoundM(object):
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ViewV(object):
    """dict view: kind is keys|values|items; m is the map term at creation
    (None: live view of d)."""
    def __init__(self, kind, d, m=None):
        self.kind = kind
        self.d = d
        self.m = m


class SeqV(object):
    """Iterable over a list object, possibly reversed."""
    def __init__(self, lst, rev=False):
        self.lst = lst
        self.rev = rev


class ZipV(object):
    def __init__(self, a, b):
        self.a = a
        self.b = b


class StaticSeq(object):
    def __init__(self, items):
        self.items = items


class GenV(object):
    """Unevaluated generator expression (eagerly turned into a list)."""
    def __init__(self, node, module):
        self.node = node


class Maybe(object):
    """Local variable that may be unbound."""
    __slots__ = ('bound', 'sv')

    def __init__(self, bound, sv):
        self.bound = bound
        self.sv = sv


class ExcV(object):
    def __init__(self, name, sv=None, open=None):
        self.name = name
        self.sv = sv
        self.open = open    # None, or: may be an instance of any subclass not below these


class State(object):
    __slots__ = ('loc', 'h', 'alloc', 'pc', 'exc', 'frame', 'marks', 'calls')

    def __init__(self):
        self.loc = {}
        self.h = {}
        self.alloc = None
        self.pc = []
        self.exc = None      # exception being handled
        self.frame = None
        self.marks = {}      # loop of the verified function -> heap at its entry
        self.calls = {}      # function -> calls under contract on this path (outside of loops)

    def copy(self):
        s = State()
        s.marks = self.marks
        s.calls = self.calls
        s.loc = dict(self.loc)
        s.h = dict(self.h)
        s.alloc = self.alloc
        s.pc = list(self.pc)
        s.exc = self.exc
        s.frame = self.frame
        return s

    @property
    def H(self):
        return M.Heap(self.h, self.alloc)

    def assume(self, *fs):
        for f in fs:
            if f is None or z3.is_true(f):
                continue
            if z3.is_and(f):
                self.assume(*f.children())
            else:
                self.pc.append(f)


class Frame(object):
    """Static information on the function being executed."""
    def __init__(self, fi, contract, parent=None, pre=None):
        self.fi = fi
        self.module = fi.module
        self.contract = contract
        self.loops = loop_order(fi.node)
        if contract is not None:
            self.loops.update(NM.loops(fi) or {})
        self.parent = parent
        self.pre = pre
        self.globals = set()
        self.locals = assigned_names(fi.node)
        self.id = object()
        self.gen = None


def assigned_names(fn):
    out = set()
    a = fn.args
    for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []):
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    gl = set()
    if isinstance(fn, ast.Lambda):
        return out
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.FunctionDef):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, ast.Global):
            gl.update(n.names)
    return out - gl


class Ctx(object):
    """What contract functions see."""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def wit(self, name):
        """Final value of a local variable; some value for a caller."""
        loc = self.__dict__.get('locals')
        if loc is not None:
            return self.ex.sv(self.st, loc[name]).t if name in loc else M.ABSENT
        ws = self.__dict__.setdefault('wits', {})
        if name not in ws:
            ws[name] = M.fconst('wit.' + name, M.V)
        return ws[name]

    def call(self, name):
        """The only call of the function on this path (pre, post, a, res), or None: for the verified function's own
        postconditions only."""
        if self.__dict__.get('st') is None:
            raise Unsupported('contract over calls used by a caller')
        l = self.st.calls.get(name, ())
        return l[0] if len(l) == 1 else None

    def forall(self, n, body, pats=None, sorts=None):
        return M.forall(n, body, pats, sorts)


def has_quant(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    return False


def item(x):
    """(label, formula[, using]) -> triple"""
    return x if len(x) == 3 else (x[0], x[1], None)


class Obligation(object):
    __slots__ = ('label', 'func', 'pc', 'goal', 'kind', 'small')

    def __init__(self, label, func, pc, goal, kind, small=None):
        self.small = small      # selected hypotheses, tried first
        self.label = label
        self.func = func
        self.pc = pc
        self.goal = goal
        self.kind = kind


class PathLimit(Unsupported):
    pass


class Executor(object):
    MAX_STEPS = 6000
    FEAS_RLIMIT = 400000

    def __init__(self, repo, contract, fi):
        self.repo = repo
        self.contract = contract
        self.fi = fi
        self.obls = []
        self.tags = {}
        self.tagged = []
        self.record = 0        # >0: dry run, obligations not recorded
        self.steps = 0
        self.depth = 0
        self.loop_reach = []
        self.assumptions = set()
        self.callees = set()
        self.inlined = set()
        self.notes = []
        self._solver = z3.Solver()
        self._solver.set('smt.mbqi', False)
        self._solver.set('rlimit', self.FEAS_RLIMIT)
        self._stack = []
        self.nfeas = 0
        self._gconst = {}
        from . import loops
        self.modlog = loops.ModLog()
        self.holes = {}         # id of a string term -> number of %-placeholders in it, name
        self.formatted = {}     # id of a string term -> format literal, values
        self.par_for_frame = None
        self.top = None          # frame of the verified function
        self.inline_stack = []
        self.line = 0

    # -- modification log, regions, well-formedness -----------------------
    def touch(self, comp, item):
        self.modlog.setdefault(comp, []).append(item)

    def modlog_add_all(self, comp, items, start):
        for it in items:
            self.touch(comp, it)

    def func_region(self, comp):
        f = self.contract.modifies.get(comp)
        if f is None:
            return (lambda r: z3.BoolVal(True)) if comp in self.contract.modifies else None
        f = getattr(f, '__func__', f)
        c = Ctx(pre=self.top.pre.pre_heap, a=self.top.pre.args, M=M, g=self.top.pre.ghost,
                ex=self)
        c.h = c.pre
        return lambda r: f(c, r)

    def wf(self, st, comps):
        """References stored in the heap are allocated."""
        al = st.alloc

        def live(v):
            return M.Imp(M.V.is_ref(v), M.And(M.V.r(v) >= 0, M.V.r(v) < al))
        for comp in dict.fromkeys(comps):
            a = st.h.get(comp)
            if a is None or not z3.is_const(a):
                continue
            inr = lambda r: M.And(r >= 0, r < al)
            if comp == 'dm':
                st.assume(M.forall(2, lambda r, k: M.Imp(inr(r), live(z3.Select(z3.Select(a, r), k))),
                                   lambda r, k: [z3.Select(z3.Select(a, r), k)], [M.I, M.V]))
            elif comp == 'le':
                st.assume(M.forall(2, lambda r, i: M.Imp(M.And(inr(r), i >= 0), live(z3.Select(z3.Select(a, r), i))),
                                   lambda r, i: [z3.Select(z3.Select(a, r), i)], [M.I, M.I]))
            elif comp == 'll':
                st.assume(M.forall(1, lambda r: M.Imp(inr(r), z3.Select(a, r) >= 0),
                                   lambda r: [z3.Select(a, r)], [M.I]))
            elif comp == 'par':
                st.assume(M.forall(1, lambda r: M.Imp(inr(r), M.And(z3.Select(a, r) >= -1, z3.Select(a, r) < al)),
                                   lambda r: [z3.Select(a, r)], [M.I]))
            elif comp.startswith('f.'):
                st.assume(M.forall(1, lambda r: M.Imp(inr(r), live(z3.Select(a, r))),
                                   lambda r: [z3.Select(a, r)], [M.I]))

    def wf_new(self, st, comps, alloc0):
        """Objects allocated by a call only refer to allocated objects."""
        al = st.alloc

        def live(v):
            return M.Imp(M.V.is_ref(v), M.And(M.V.r(v) >= 0, M.V.r(v) < al))
        for comp in comps:
            a = st.h.get(comp)
            if a is None:
                continue
            base = a
            while z3.is_app(base) and base.decl().kind() == z3.Z3_OP_STORE:
                base = base.arg(0)
            if not z3.is_const(base):
                continue
            inr = lambda r: M.And(r >= alloc0, r < al)
            if comp == 'dm':
                st.assume(M.forall(2, lambda r, k: M.Imp(inr(r), live(z3.Select(z3.Select(base, r), k))),
                                   lambda r, k: [z3.Select(z3.Select(base, r), k)], [M.I, M.V]))
            elif comp == 'le':
                st.assume(M.forall(2, lambda r, i: M.Imp(M.And(inr(r), i >= 0), live(z3.Select(z3.Select(base, r), i))),
                                   lambda r, i: [z3.Select(z3.Select(base, r), i)], [M.I, M.I]))
            elif comp == 'par':
                st.assume(M.forall(1, lambda r: M.Imp(inr(r), M.And(
                    z3.Select(base, r) >= -1, z3.Select(base, r) < al)),
                    lambda r: [z3.Select(base, r)], [M.I]))
            elif comp == 'll':
                st.assume(M.forall(1, lambda r: M.Imp(inr(r), z3.Select(base, r) >= 0),
                                   lambda r: [z3.Select(base, r)], [M.I]))
            elif comp.startswith('f.'):
                st.assume(M.forall(1, lambda r: M.Imp(inr(r), live(z3.Select(base, r))),
                                   lambda r: [z3.Select(base, r)], [M.I]))

    def hashable(self, st, v):
        ty = v.ty
        if ty[0] in ('str', 'int', 'bool', 'none', 'fun', 'tuple'):
            return z3.BoolVal(True)
        if ty[0] == 'obj':
            return z3.BoolVal(ty[1] != 'ConfigDict')
        t = v.t
        if z3.is_app(t) and t.decl().name() in ('str', 'int', 'none', 'bool', 't2', 't3', 't4', 'fun'):
            return z3.BoolVal(True)
        return M.Not(M.And(M.V.is_ref(t), self.unhash(M.V.r(t))))

    @staticmethod
    def unhash(r):
        k = M.kindf(r)
        return M.Or(k == M.K_LIST, k == M.K_SET, M.And(
            k == M.K_DICT, M.Not(M.instf(M.clsf(r), z3.IntVal(M.cls_id('Resolution'))))))

    def hinted(self, st, val, ty):
        """SV with a hint that was validated by the solver (else no hint)."""
        if ty == ANY or ty == ('empty',):
            return SV(val)
        kf = kindfact(st, val, ty)
        if self.record:
            # dry run: what it misses is noticed by the real one
            t = st.copy()
            t.assume(kf)
            if not self.refuted(t, z3.BoolVal(True)):
                st.assume(kf)
                return SV(val, ty)
            return SV(val)
        if z3.is_true(kf) or self.refuted(st, M.Not(kf)):
            st.assume(kf)
            return SV(val, ty)
        return SV(val)

    def event(self, st, v):
        H = st.H
        n = H.comp('trn')
        st.h['tr'] = z3.Store(H.comp('tr'), n, v)
        st.h['trn'] = n + 1
        self.touch('tr', n)
        self.touch('trn', n)

    # -- feasibility ------------------------------------------------------
    def _sync(self, pc):
        i = 0
        n = min(len(self._stack), len(pc))
        while i < n and self._stack[i] is pc[i]:
            i += 1
        drop = len(self._stack) - i
        if drop:
            self._solver.pop(drop)
            del self._stack[i:]
        for f in pc[i:]:
            self._solver.push()
            self._solver.add(f)
            self._stack.append(f)

    def refuted(self, st, extra):
        """True when pc and extra is known to be unsatisfiable."""
        if z3.is_false(extra):
            return True
        self.nfeas += 1
        self._sync(st.pc)
        self._solver.push()
        self._solver.add(extra)
        self._solver.set('rlimit', self.FEAS_RLIMIT // 4 if self.record else self.FEAS_RLIMIT)
        r = self._solver.check()
        self._solver.pop()
        return r == z3.unsat

    def branch(self, st, cond, likely=False):
        """Split a state on a condition: (true state, false state)."""
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise PathLimit('too many paths')
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return st, None
        if z3.is_false(cond):
            return None, st
        t = f = None
        neg = z3.simplify(z3.Not(cond))
        if likely and self.refuted(st, neg):
            t = st.copy()
            t.assume(cond)
            return t, None
        if not self.refuted(st, cond):
            t = st.copy()
            t.assume(cond)
        if likely:
            f = st.copy()
            f.assume(neg)
            return t, f
        if t is None:
            f = st.copy()
            f.assume(neg)
        elif not self.refuted(st, neg):
            f = st.copy()
            f.assume(neg)
        return t, f

    def oblige(self, st, label, goal, kind='assert', using=None):
        if self.record:
            return
        goal = goal if not isinstance(goal, bool) else z3.BoolVal(goal)
        small = None
        if using is not None:
            small = [f for f in st.pc if not has_quant(f) or any(
                t.startswith(u) for t in self.tags.get(f.get_id(), ()) for u in using)]
            small = (small, [u[4:] for u in using if u.startswith('def:')])
        self.obls.append(Obligation(label, self.fi.key, list(st.pc), goal, kind, small))

    def given(self, st, tag, f):
        """Assume f under a name that `using` lists can select."""
        n = len(st.pc)
        st.assume(f)
        if not self.record:
            for g in st.pc[n:]:
                self.tags.setdefault(g.get_id(), set()).add(tag)
                self.tagged.append(g)

    # -- allocation and heap updates -----------------------------------------
    def alloc(self, st, kind, cls=None):
        r = st.alloc
        st.alloc = z3.simplify(r + 1)
        st.assume(M.kindf(r) == M.KINDS[kind])
        if cls:
            st.assume(M.clsf(r) == M.cls_id('concrete:' + cls))
            for c in self.repo.mro(cls):
                st.assume(M.instf(M.clsf(r), z3.IntVal(M.cls_id(c))))
        H = st.H
        if kind in ('dict', 'set'):
            st.h['dm'] = z3.Store(H.comp('dm'), r, M.EMPTY)
            self.touch('dm', r)
            if kind == 'dict' and cls is None:
                # a plain dict is not an instance of the special classes
                for c in sorted(T.DICT_CLASSES):
                    st.assume(z3.Not(M.instf(M.clsf(r), z3.IntVal(M.cls_id(c)))))
        elif kind == 'list':
            st.h['ll'] = z3.Store(H.comp('ll'), r, z3.IntVal(0))
            self.touch('ll', r)
        st.h['par'] = z3.Store(H.comp('par'), r, z3.IntVal(-1))
        return M.V.ref(r)

    def own(self, st, container, key, v):
        """Ghost: v becomes owned by container under key unless it is owned."""
        if z3.is_app(v) and v.decl().name() in (
                'none', 'bool', 'int', 'str', 't0', 't1', 't2', 't3', 't4', 'fun', 'op', 'absent'):
            return
        H = st.H
        r = M.rid(v)
        # only objects allocated since the entry of the function are taken
        cond = M.And(M.V.is_ref(v), r >= self.top.pre.pre_heap.alloc, H.par_r(r) == -1)
        p, k = H.comp('par'), H.comp('pk')
        st.h['par'] = z3.Store(p, r, z3.If(cond, M.rid(container), z3.Select(p, r)))
        st.h['pk'] = z3.Store(k, r, z3.If(cond, key, z3.Select(k, r)))

    def dict_set(self, st, d, k, v):
        H = st.H
        st.h['dm'] = z3.Store(H.comp('dm'), M.rid(d), z3.Store(H.dmap(d), k, v))
        self.touch('dm', M.rid(d))
        self.own(st, d, k, v)

    def dict_del(self, st, d, k):
        H = st.H
        st.h['dm'] = z3.Store(H.comp('dm'), M.rid(d),
                              z3.Store(H.dmap(d), k, M.ABSENT))
        self.touch('dm', M.rid(d))

    def set_map(self, st, d, m):
        st.h['dm'] = z3.Store(st.H.comp('dm'), M.rid(d), m)
        self.touch('dm', M.rid(d))

    def set_list(self, st, l, n, seq):
        H = st.H
        st.h['ll'] = z3.Store(H.comp('ll'), M.rid(l), n)
        st.h['le'] = z3.Store(H.comp('le'), M.rid(l), seq)
        self.touch('ll', M.rid(l))
        self.touch('le', M.rid(l))

    def list_append(self, st, l, v):
        H = st.H
        n = H.llen(l)
        self.own(st, l, M.vint(n), v)
        H = st.H
        self.set_list(st, l, n + 1, z3.Store(H.lseq(l), n, v))

    def set_field(self, st, o, name, v):
        c = 'f.' + name
        H = st.H
        if c not in st.h:
            raise Unsupported('undeclared attribute %s' % name)
        st.h[c] = z3.Store(H.comp(c), M.rid(o), v)
        self.touch(c, M.rid(o))

    def new_list(self, st, items, ty=ANY):
        v = self.alloc(st, 'list')
        seq = M.fconst('seq', M.SeqS)
        for i, x in enumerate(items):
            seq = z3.Store(seq, z3.IntVal(i), x.t)
        self.set_list(st, v, z3.IntVal(len(items)), seq)
        for i, x in enumerate(items):
            self.own(st, v, M.vint(i), x.t)
        e = items[0].ty if items and all(x.ty == items[0].ty for x in items) else ANY
        if not items:
            e = ANY
        return SV(v, ('list', e))

    def new_dict(self, st, cls=None):
        v = self.alloc(st, 'dict', cls)
        return SV(v, ('dict', ANY, ANY) if cls is None else ('obj', cls))

    def new_exc(self, st, name):
        r = st.alloc
        st.alloc = z3.simplify(r + 1)
        st.assume(M.kindf(r) == M.K_EXC)
        for b in self.repo.exc_bases(name):
            st.assume(M.instf(M.clsf(r), z3.IntVal(M.cls_id(b))))
        st.h['par'] = z3.Store(st.H.comp('par'), r, z3.IntVal(-1))
        return SV(M.V.ref(r), ('exc', name))

    # -- helpers on values ---------------------------------------------------
    def sv(self, st, v):
        """Coerce to SV."""
        if isinstance(v, SV):
            return v
        if isinstance(v, ClassV):
            return SV(M.V.fun(z3.IntVal(M.fun_id('class:' + v.name))), ('fun',))
        if isinstance(v, FuncV):
            return SV(M.V.fun(z3.IntVal(M.fun_id('func:' + v.fi.key))), ('fun',))
        if isinstance(v, (LambdaV,)):
            return SV(M.V.fun(z3.IntVal(M.fun_id('lambda:%d' % id(v.node)))), ('fun',))
        if isinstance(v, (ExtV, ModV)):
            return SV(M.V.fun(z3.IntVal(M.fun_id('ext:' + v.name))), ('fun',))
        if isinstance(v, ExcV):
            return v.sv
        if isinstance(v, StaticSeq):
            return SV(M.vtuple([self.sv(st, x).t for x in v.items]),
                      ('tuple', tuple(self.sv(st, x).ty for x in v.items)), lit=v.items)
        if isinstance(v, BoundM):
            return SV(M.V.fun(z3.IntVal(M.fun_id('bound:' + v.name))), ('fun',))
        if isinstance(v, (ViewV, SeqV, ZipV)):
            return self.to_list(v, st)
        raise Unsupported('value %r used as data' % (v,))

    def const(self, x):
        ty = {type(None): ('none',), bool: ('bool',), int: ('int',),
              str: ('str',)}.get(type(x))
        if ty is None:
            if isinstance(x, (float, bytes)):
                return SV(M.V.op(z3.IntVal(M.fun_id(repr(x)))))
            raise Unsupported('constant %r' % (x,))
        return SV(M.lit(x), ty)

    def bsv(self, b):
        return SV(M.V.bool(b), ('bool',))

    def isv(self, i):
        return SV(M.V.int(i), ('int',))

    def ssv(self, base='s'):
        return SV(M.V.str(M.fconst(base, M.S)), ('str',))

    def truth(self, st, v):
        """z3 Bool for truthiness of a value."""
        if isinstance(v, (ClassV, FuncV, ExtV, ModV, BoundM, LambdaV)):
            return z3.BoolVal(True)
        if isinstance(v, StaticSeq):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, ViewV):
            return z3.Not(st.H.empty(v.d.t))
        v = self.sv(st, v)
        t, ty = v.t, v.ty
        H = st.H
        if ty[0] == 'bool' or (z3.is_app(t) and t.decl().name() == 'bool'):
            return t.arg(0) if t.decl().name() == 'bool' and t.num_args() else M.And(
                M.V.is_bool(t), M.V.b(t)) if ty[0] != 'bool' else M.V.b(t)
        if ty[0] == 'none':
            return z3.BoolVal(False)
        if ty[0] in ('fun', 'exc'):
            return z3.BoolVal(True)
        empty = M.V.s(M.vstr(''))
        sid = M.V.s(t)
        r = M.V.r(t)
        k = M.kindf(r)
        refc = z3.And(M.V.is_ref(t),
                      z3.Not(z3.And(z3.Or(k == M.K_DICT, k == M.K_SET), H.empty(t))),
                      z3.Not(z3.And(k == M.K_LIST, H.llen(t) == 0)))
        return z3.Or(z3.And(M.V.is_bool(t), M.V.b(t)),
                     z3.And(M.V.is_int(t), M.V.i(t) != 0),
                     z3.And(M.V.is_str(t), sid != empty),
                     refc, M.V.is_t1(t), M.V.is_t2(t), M.V.is_t3(t), M.V.is_t4(t),
                     M.V.is_fun(t), M.V.is_op(t))

    def scalar_lit(self, v):
        return isinstance(v, SV) and v.ty[0] in ('none', 'bool', 'int', 'str')

    def pyeq(self, st, a, b):
        """z3 Bool for a == b."""
        if isinstance(a, (ClassV, FuncV, ExtV)) or isinstance(b, (ClassV, FuncV, ExtV)):
            return self.sv(st, a).t == self.sv(st, b).t
        a, b = self.sv(st, a), self.sv(st, b)
        if self.scalar_lit(a) and self.scalar_lit(b):
            if {a.ty[0], b.ty[0]} == {'bool', 'int'}:
                return M.num(a.t) == M.num(b.t) if hasattr(M, 'num') else z3.BoolVal(False)
            return a.t == b.t
        for x, y in ((a, b), (b, a)):
            if x.ty[0] in ('none', 'str'):
                return x.t == y.t
            if x.ty[0] in ('fun',):
                return x.t == y.t
        H = st.H
        for x, y in ((a, b), (b, a)):
            # comparison with an empty container
            if x.lit is not None and x.ty[0] == 'list' and not x.lit:
                return M.And(H.islist(y.t), H.llen(y.t) == 0)
            if x.lit is not None and x.ty[0] == 'dict' and not x.lit:
                return M.And(H.isdict(y.t), H.empty(y.t))
        if a.ty[0] == 'tuple' and b.ty[0] == 'tuple' and len(a.ty[1]) == len(b.ty[1]):
            n = len(a.ty[1])
            return M.And(*[self.pyeq(st, SV(M.tup_at(a.t, n, i), a.ty[1][i]),
                                     SV(M.tup_at(b.t, n, i), b.ty[1][i]))
                           for i in range(n)])
        for x in (a, b):
            if x.ty[0] == 'int' or x.ty[0] == 'bool':
                if x.ty[0] == 'int':
                    return z3.If(M.V.is_bool((b if x is a else a).t),
                                 z3.If(M.V.b((b if x is a else a).t), z3.IntVal(1), z3.IntVal(0)) == M.V.i(x.t),
                                 a.t == b.t)
                o = (b if x is a else a)
                return z3.If(M.V.is_int(o.t), M.V.i(o.t) == z3.If(M.V.b(x.t), z3.IntVal(1), z3.IntVal(0)),
                             a.t == b.t)
        if a.ty[0] == 'obj' and a.ty[1] not in T.DICT_CLASSES and \
                not self.repo.find_method(a.ty[1], '__eq__'):
            if b.ty[0] == 'obj' and b.ty[1] not in T.DICT_CLASSES:
                return a.t == b.t
        # general: structural equality of containers is abstract
        de = z3.Function('deq', M.comp_sort('dm'), M.comp_sort('ll'), M.comp_sort('le'),
                         M.V, M.V, z3.BoolSort())
        q = de(H.comp('dm'), H.comp('ll'), H.comp('le'), a.t, b.t)
        st.assume(z3.Implies(a.t == b.t, q))
        bothc = z3.And(M.V.is_ref(a.t), M.V.is_ref(b.t))
        st.assume(z3.Implies(z3.And(q, z3.Not(bothc),
                                    z3.Not(z3.And(M.V.is_bool(a.t), M.V.is_int(b.t))),
                                    z3.Not(z3.And(M.V.is_int(a.t), M.V.is_bool(b.t))),
                                    z3.Not(M.V.is_t1(a.t)), z3.Not(M.V.is_t2(a.t)),
                                    z3.Not(M.V.is_t3(a.t)), z3.Not(M.V.is_t4(a.t))),
                             a.t == b.t))
        ka, kb = M.kindf(M.V.r(a.t)), M.kindf(M.V.r(b.t))
        st.assume(z3.Implies(q, z3.And(M.V.is_ref(a.t) == M.V.is_ref(b.t), *[M.tup_is(a.t, k) == M.tup_is(b.t, k) for k in range(5)])))
        st.assume(z3.Implies(z3.And(q, bothc), ka == kb))
        st.assume(z3.Implies(z3.And(q, bothc, ka == M.K_LIST), H.llen(a.t) == H.llen(b.t)))
        st.assume(z3.Implies(z3.And(q, bothc, ka == M.K_DICT), H.empty(a.t) == H.empty(b.t)))
        st.assume(z3.Implies(z3.And(bothc, ka == M.K_LIST, kb == M.K_LIST,
                                    H.llen(a.t) == 0, H.llen(b.t) == 0), q))
        st.assume(z3.Implies(z3.And(bothc, ka == M.K_DICT, kb == M.K_DICT,
                                    H.empty(a.t), H.empty(b.t)), q))
        return q

    def raise_(self, st, name, X):
        exc = ExcV(name, None)
        exc.sv = self.new_exc(st, name)
        X.append((st, exc))

    def need(self, st, cond, X, excname):
        """Continue where cond holds; raise excname elsewhere."""
        t, f = self.branch(st, cond, True)
        if f is not None:
            self.raise_(f, excname, X)
        return t

    # -- iteration helpers -----------------------------------------------------
    def to_list(self, v, st):
        """New list object holding the elements of an iterable."""
        if isinstance(v, SV) and v.ty[0] == 'tuple':
            n = len(v.ty[1])
            return self.new_list(st, [SV(M.tup_at(v.t, n, i), v.ty[1][i]) for i in range(n)])
        if isinstance(v, StaticSeq):
            return self.new_list(st, [self.sv(st, x) for x in v.items])
        if isinstance(v, SV) and v.ty[0] == 'set':
            v = ViewV('keys', v)
        if isinstance(v, ViewV):
            m = v.m if v.m is not None else st.H.dmap(v.d.t)
            kt, vt = self.dict_hints(v.d)
            out = SV(self.alloc(st, 'list'))
            n = M.fconst('n', M.I)
            seq = M.fconst('seq', M.SeqS)
            keyf = z3.Function(M.fresh_name('keyat'), M.I, M.V)
            idxf = z3.Function(M.fresh_name('idxof'), M.V, M.I)

            def elem(k):
                val = z3.Select(m, k)
                return {'keys': k, 'values': val, 'items': M.V.t2(k, val)}[v.kind]
            i = M.fconst('i', M.I)
            k = M.fconst('k', M.V)
            st.assume(n >= 0)
            al = st.alloc
            st.assume(M.forall(1, lambda i: M.Imp(
                M.And(i >= 0, i < n),
                M.And(z3.Select(seq, i) == elem(keyf(i)),
                      z3.Select(m, keyf(i)) != M.ABSENT, idxf(keyf(i)) == i, keyf(i) != M.ABSENT, self.hashable(st, SV(keyf(i))),
                      M.Imp(M.V.is_ref(keyf(i)), M.And(M.V.r(keyf(i)) >= 0, M.V.r(keyf(i)) < al)))),
                lambda i: [z3.Select(seq, i)], [M.I]))
            st.assume(M.forall(1, lambda k: M.Imp(
                z3.Select(m, k) != M.ABSENT,
                M.And(idxf(k) >= 0, idxf(k) < n, keyf(idxf(k)) == k,
                      z3.Select(seq, idxf(k)) == elem(k))),
                lambda k: [z3.Select(m, k)]))
            st.assume((n == 0) == (m == M.EMPTY))
            st.assume(n == M.cardf(m))
            self.set_list(st, out.t, n, seq)
            et = {'keys': kt, 'values': vt, 'items': ('tuple', (kt, vt))}[v.kind]
            out.ty = ('list', et)
            out.snap = ViewV(v.kind, v.d, m)
            return out
        if isinstance(v, SeqV):
            src = v.lst
            out = SV(self.alloc(st, 'list'), ('list', src.ty[1] if src.ty[0] == 'list' else ANY))
            n = st.H.llen(src.t)
            if not v.rev:
                self.set_list(st, out.t, n, st.H.lseq(src.t))
                return out
            seq = M.fconst('seq', M.SeqS)
            s0 = st.H.lseq(src.t)
            st.assume(M.forall(1, lambda i: M.Imp(
                M.And(i >= 0, i < n), z3.Select(seq, i) == z3.Select(s0, n - 1 - i)),
                lambda i: [z3.Select(seq, i)], [M.I]))
            self.set_list(st, out.t, n, seq)
            return out
        if isinstance(v, SV) and v.ty[0] in ('list', 'any', 'opt'):
            out = SV(self.alloc(st, 'list'), ('list', v.ty[1] if v.ty[0] == 'list' else ANY))
            H = st.H
            self.set_list(st, out.t, H.llen(v.t), H.lseq(v.t))
            return out
        raise Unsupported('list of %r' % (v,))

    def dict_hints(self, d):
        if d.ty[0] == 'dict':
            return d.ty[1], d.ty[2]
        if d.ty[0] == 'set':
            return d.ty[1], ('bool',)
        return ANY, ANY

    def unpack(self, st, v, n, X):
        """Unpack a value into n values -> [(st, [values])]."""
        if isinstance(v, StaticSeq):
            if len(v.items) != n:
                self.raise_(st, 'ValueError', X)
                return []
            return [(st, list(v.items))]
        v = self.sv(st, v)
        if v.lit is not None and v.ty[0] in ('tuple', 'list') and len(v.lit) == n:
            return [(st, list(v.lit))]
        hints = list(v.ty[1]) if v.ty[0] == 'tuple' and len(v.ty[1]) == n else [ANY] * n
        if v.ty[0] == 'list':
            hints = [v.ty[1]] * n
            st = self.need(st, st.H.llen(v.t) == n, X, 'ValueError')
            if st is None:
                return []
            return [(st, [SV(st.H.at(v.t, i), hints[i]) for i in range(n)])]
        cond = M.tup_is(v.t, n)
        t, f = self.branch(st, cond)
        out = []
        if t is not None:
            out.append((t, [SV(M.tup_at(v.t, n, i), hints[i]) for i in range(n)]))
        if f is not None:
            # a list of that length, a tuple of another length, or no iterable
            H = f.H
            lt, lf = self.branch(f, M.And(H.islist(v.t), H.llen(v.t) == n))
            if lt is not None:
                out.append((lt, [SV(lt.H.at(v.t, i)) for i in range(n)]))
            if lf is not None:
                istup = M.Or(*[M.tup_is(v.t, k) for k in range(5)])
                a, b = self.branch(lf, M.Or(istup, lf.H.islist(v.t), M.V.is_str(v.t), lf.H.isdict(v.t)))
                if a is not None:
                    self.raise_(a, 'ValueError', X)
                if b is not None:
                    self.raise_(b, 'TypeError', X)
        return out

    # ------------------------------------------------------------------ exprs
    def ev(self, e, st, X):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st, X)

    def ev_seq(self, es, st, X):
        """Evaluate expressions left to right -> [(st, [vals])]."""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vals in acc:
                for s2, v in self.ev(e, s, X):
                    nxt.append((s2, vals + [v]))
            acc = nxt
        return acc

    def ev_Constant(self, e, st, X):
        return [(st, self.const(e.value))]

    def ev_Name(self, e, st, X):
        name = e.id
        fr = st.frame
        if name in st.loc:
            v = st.loc[name]
            if isinstance(v, Maybe):
                st = self.need(st, v.bound, X, 'UnboundLocalError')
                if st is None:
                    return []
                st.loc[name] = v.sv
                return [(st, v.sv)]
            return [(st, v)]
        if name in fr.locals and name not in fr.globals and not isinstance(fr.fi.node, ast.Lambda):
            self.raise_(st, 'UnboundLocalError', X)
            return []
        clo = st.loc.get('$closure')
        while clo is not None:
            if name in clo:
                v = clo[name]
                if isinstance(v, Maybe):
                    st = self.need(st, v.bound, X, 'NameError')
                    if st is None:
                        return []
                    return [(st, v.sv)]
                return [(st, v)]
            clo = clo.get('$closure')
        return [(st, self.global_name(name, fr.module, st))]

    def global_name(self, name, module, st):
        r = self.repo.resolve(module, name)
        if r is None:
            import builtins
            if self.repo.is_exc_class(name):
                return ClassV(ALIAS_EXC.get(name, name))
            if name in ('dict', 'list', 'set', 'tuple', 'str', 'bool', 'int', 'type', 'object', 'frozenset', 'float', 'bytes'):
                return ClassV(name)
            if hasattr(builtins, name):
                return ExtV('builtins.' + name)
            raise Unsupported('unknown name %s' % name)
        return self.resolved(r, st)

    def resolved(self, r, st):
        if r[0] == 'func':
            return FuncV(r[1])
        if r[0] == 'class':
            return ClassV(r[1].name, r[1])
        if r[0] == 'mod':
            return ModV(r[1])
        if r[0] == 'ext':
            return self.external(r[1])
        if r[0] == 'global':
            _, mod, name = r
            key = '%s:%s' % (mod.name, name)
            if key in db.mutable_globals:
                return SV(st.h['g.' + key], T.parse(db.mutable_globals[key]))
            vals = mod.assigns[name]
            if len(vals) == 1:
                v = vals[0]
                try:
                    c = ast.literal_eval(v)
                    if c is None or isinstance(c, (str, bool, int)):
                        return self.const(c)
                except (ValueError, SyntaxError):
                    pass
                if isinstance(v, (ast.Name, ast.Attribute)):
                    if isinstance(v, ast.Name):
                        return self.global_name(v.id, mod, st)
                    base = self.global_name(v.value.id, mod, st) if isinstance(v.value, ast.Name) else None
                    if isinstance(base, ModV):
                        return self.mod_attr(base, v.attr, st)
            if key in db.globals:
                if key not in self._gconst:
                    self._gconst[key] = z3.Const('G.' + key, M.V)
                t = T.parse(db.globals[key])
                st.assume(T.typed(st.H, self._gconst[key], t))
                return SV(self._gconst[key], t)
            raise Unsupported('module variable %s' % key)
        raise Unsupported('name kind %s' % (r[0],))

    def external(self, dotted):
        simple = dotted.split('.')[-1]
        if dotted in ('six.text_type',):
            return ClassV('str')
        if dotted in ('six.binary_type',):
            return ClassV('bytes')
        if self.repo.is_exc_class(simple):
            return ClassV(ALIAS_EXC.get(simple, simple))
        return ExtV(dotted)

    def mod_attr(self, m, attr, st):
        r = self.repo.resolve_dotted(m.name, attr)
        if r[0] == 'ext':
            return self.external(r[1])
        return self.resolved(r, st)

    def ev_Attribute(self, e, st, X):
        out = []
        for s, v in self.ev(e.value, st, X):
            out.extend(self.get_attr(v, e.attr, s, X))
        return out

    def get_attr(self, v, attr, st, X):
        if isinstance(v, ModV):
            return [(st, self.mod_attr(v, attr, st))]
        if isinstance(v, ExtV):
            return [(st, self.external(v.name + '.' + attr))]
        if isinstance(v, ClassV):
            if attr == '__name__':
                return [(st, self.ssv('clsname'))]
            if v.ci is not None:
                for c in self.repo.mro(v.name):
                    ci = self.repo.classes.get(c)
                    if ci and attr in ci.methods:
                        return [(st, FuncV(ci.methods[attr]))]
                    if ci and attr in ci.consts:
                        return [(st, self.const(ast.literal_eval(ci.consts[attr])))]
            return [(st, BoundM(v, attr))]
        if isinstance(v, SuperV):
            return [(st, BoundM(v, attr))]
        if isinstance(v, (ViewV, SeqV, StaticSeq)):
            return [(st, BoundM(v, attr))]
        if not isinstance(v, SV):
            raise Unsupported('attribute %s of %r' % (attr, v))
        ty = v.ty
        if ty[0] == 'opt':
            t, f = self.branch(st, v.t != M.NONE)
            if f is not None:
                self.raise_(f, 'AttributeError', X)
            return self.get_attr(SV(v.t, ty[1]), attr, t, X) if t is not None else []
        if ty[0] == 'exc':
            if 'f.' + attr in st.h:
                fty = T.parse(db.fields.get('exc', {}).get(attr, 'any'))
                return [(st, SV(st.H.field(v.t, attr), fty))]
            return [(st, BoundM(v, attr))]
        if ty[0] == 'obj':
            return self.obj_attr(v, ty[1], attr, st, X)
        if ty[0] in ('dict', 'list', 'set', 'str', 'bool', 'int', 'none', 'tuple', 'any', 'fun'):
            # attribute access that is not a method call
            return [(st, BoundM(v, attr))]
        raise Unsupported('attribute %s of %s' % (attr, ty))

    def class_attr_info(self, cname, attr):
        """('prop', type)|('getter', fi)|('field', type)|('method', ..)|None."""
        for c in self.repo.mro(cname):
            itf = db.interface.get(c)
            if itf and attr in itf.get('props', {}):
                return ('prop', itf['props'][attr], c)
            if 'iface:%s.%s' % (c, attr) in db.contracts:
                ct = db.contracts['iface:%s.%s' % (c, attr)]
                return ('iface', ct, c)
            ci = self.repo.classes.get(c)
            if ci and attr in ci.methods:
                m = ci.methods[attr]
                if m.is_property:
                    if m.is_abstract:
                        continue
                    return ('getter', m, c)
                if m.is_abstract and 'iface:%s.%s' % (c, attr) not in db.contracts:
                    continue
                return ('method', m, c)
            if attr in db.fields.get(c, {}):
                return ('field', db.fields[c][attr], c)
        for c in self.repo.mro(cname):
            ci = self.repo.classes.get(c)
            if ci and attr in ci.consts:
                try:
                    return ('const', ast.literal_eval(ci.consts[attr]), c)
                except ValueError:
                    pass
        return None

    def obj_attr(self, v, cname, attr, st, X):
        if cname in T.DICT_CLASSES:
            info = self.class_attr_info(cname, attr)
            if info and info[0] in ('method', 'getter', 'iface'):
                return [(st, BoundM(v, attr))]
            if attr in DICT_METHODS:
                return [(st, BoundM(v, attr))]
            st = self.need(st, M.And(st.H.isdict(v.t)), X, 'AttributeError')
            if st is None:
                return []
            val = st.H.get(v.t, M.vstr(attr))
            st = self.need(st, val != M.ABSENT, X, 'AttributeError')
            if st is None:
                return []
            hint = T.parse(db.fields.get(cname, {}).get(attr, 'any'))
            return [(st, self.hinted(st, val, hint))]
        st = self.need(st, st.H.inst(v.t, cname), X, 'AttributeError')
        if st is None:
            return []
        info = self.class_attr_info(cname, attr)
        if info is None:
            if attr == '__class__':
                return [(st, BoundM(v, attr))]
            self.raise_(st, 'AttributeError', X)
            return []
        if info[0] in ('prop', 'field'):
            ty = T.parse(info[1])
            val = st.H.field(v.t, attr)
            # declared types of attributes: checked at every store
            st.assume(kindfact(st, val, ty))
            st.assume(val != M.ABSENT)
            return [(st, SV(val, ty))]
        if info[0] == 'getter':
            return self.call_func(info[1], [v], {}, st, X)
        if info[0] == 'const':
            return [(st, self.const(info[1]))]
        return [(st, BoundM(v, attr))]

    def ev_Tuple(self, e, st, X):
        out = []
        for s, vals in self.ev_seq(e.elts, st, X):
            svs = []
            for v in vals:
                svs.append(v)
            if all(isinstance(x, SV) for x in svs) and len(svs) <= 4:
                out.append((s, SV(M.vtuple([x.t for x in svs]),
                                  ('tuple', tuple(x.ty for x in svs)), lit=svs)))
            else:
                out.append((s, StaticSeq(svs)))
        return out

    def ev_List(self, e, st, X):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred list')
        out = []
        for s, vals in self.ev_seq(e.elts, st, X):
            svs = [self.sv(s, v) for v in vals]
            l = self.new_list(s, svs)
            l.lit = svs
            out.append((s, l))
        return out

    def ev_Dict(self, e, st, X):
        out = []
        for s, vals in self.ev_seq([x for kv in zip(e.keys, e.values) for x in kv], st, X):
            d = self.new_dict(s)
            for i in range(0, len(vals), 2):
                self.dict_set(s, d.t, self.sv(s, vals[i]).t, self.sv(s, vals[i + 1]).t)
            d.lit = [] if not vals else None
            out.append((s, d))
        return out

    def ev_Set(self, e, st, X):
        out = []
        for s, vals in self.ev_seq(e.elts, st, X):
            v = self.alloc(s, 'set')
            m = M.EMPTY
            for x in vals:
                m = z3.Store(m, self.sv(s, x).t, M.TRUE)
            self.set_map(s, v, m)
            out.append((s, SV(v, ('set', ANY))))
        return out

    def ev_IfExp(self, e, st, X):
        out = []
        for s, c in self.ev_cond(e.test, st, X):
            t, f = self.branch(s, c)
            if t is not None:
                out.extend(self.ev(e.body, t, X))
            if f is not None:
                out.extend(self.ev(e.orelse, f, X))
        return out

    def ev_BoolOp(self, e, st, X):
        isand = isinstance(e.op, ast.And)
        acc = [(st, None)]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in acc:
                for s2, v in self.ev(x, s, X):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    t, f = self.branch(s2, self.truth(s2, v))
                    stop, go = (f, t) if isand else (t, f)
                    if stop is not None:
                        if isinstance(v, SV) and v.ty[0] == 'opt' and not isand:
                            v2 = SV(v.t, v.ty[1])
                        else:
                            v2 = v
                        out.append((stop, v2))
                    if go is not None:
                        nxt.append((go, None))
            acc = nxt
        return out

    def ev_cond(self, e, st, X):
        """Evaluate as a condition -> [(st, z3 Bool)], merging pure cases."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = [(st, [])]
            done = []
            for i, x in enumerate(e.values):
                nxt = []
                for s, cs in acc:
                    sub = s.copy()
                    g = z3.simplify(M.And(*[c if isand else M.Not(c) for c in cs]))
                    if z3.is_false(g):
                        nxt.append((s, cs))
                        continue
                    n0 = len(sub.pc)
                    if not z3.is_true(g):
                        sub.assume(g)
                    n1 = len(sub.pc)
                    X2 = []
                    res = self.ev_cond(x, sub, X2)
                    if len(res) == 1 and not X2 and same_heap(res[0][0], s):
                        r, c = res[0]
                        # keep definitional assumptions, without the guard
                        for f in r.pc[n1:]:
                            s.assume(M.Imp(g, f) if not z3.is_true(g) else f)
                        s.loc = r.loc
                        nxt.append((s, cs + [c]))
                        continue
                    # general case: really branch
                    stop, go = (None, s)
                    if cs:
                        a, b = self.branch(s, g)
                        go, stop = a, b
                    if stop is not None:
                        done.append((stop, z3.BoolVal(not isand)))
                    if go is not None:
                        for s2, c in self.ev_cond(x, go, X):
                            nxt.append((s2, [c]))
                acc = nxt
            return done + [(s, M.And(*cs) if isand else M.Or(*cs)) for s, cs in acc]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, M.Not(c)) for s, c in self.ev_cond(e.operand, st, X)]
        return [(s, self.truth(s, v)) for s, v in self.ev(e, st, X)]

    def ev_UnaryOp(self, e, st, X):
        if isinstance(e.op, ast.Not):
            return [(s, self.bsv(M.Not(c))) for s, c in self.ev_cond(e.operand, st, X)]
        if isinstance(e.op, ast.USub):
            return [(s, self.isv(-M.V.i(self.sv(s, v).t))) for s, v in self.ev(e.operand, st, X)]
        raise Unsupported('unary operator')

    def ev_Compare(self, e, st, X):
        if len(e.ops) > 1:
            # a < b < c  ==  a < b and b < c (operands are evaluated once)
            out = []
            for s, vals in self.ev_seq([e.left] + e.comparators, st, X):
                cs = []
                s2 = [(s, None)]
                for i, op in enumerate(e.ops):
                    res = self.compare(op, vals[i], vals[i + 1], s, X)
                    if len(res) != 1:
                        raise Unsupported('chained comparison')
                    s, c = res[0]
                    cs.append(c)
                out.append((s, self.bsv(M.And(*cs))))
            return out
        out = []
        for s, (a, b) in self.ev_seq([e.left, e.comparators[0]], st, X):
            for s2, c in self.compare(e.ops[0], a, b, s, X):
                out.append((s2, self.bsv(c)))
        return out

    def compare(self, op, a, b, st, X):
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.sv(st, a).t == self.sv(st, b).t
            return [(st, c if isinstance(op, ast.Is) else M.Not(c))]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, SetDiff) or isinstance(b, SetDiff):
                raise Unsupported('set comparison')
            c = self.pyeq(st, a, b)
            return [(st, c if isinstance(op, ast.Eq) else M.Not(c))]
        if isinstance(op, (ast.In, ast.NotIn)):
            res = self.contains(a, b, st, X)
            return [(s, c if isinstance(op, ast.In) else M.Not(c)) for s, c in res]
        a, b = self.sv(st, a), self.sv(st, b)
        if a.ty[0] == 'int' and b.ty[0] == 'int':
            x, y = M.V.i(a.t), M.V.i(b.t)
            return [(st, {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                          ast.GtE: x >= y}[type(op)])]
        t = self.need(st, M.And(M.V.is_int(a.t), M.V.is_int(b.t)), X, 'TypeError')
        if t is None:
            return []
        x, y = M.V.i(a.t), M.V.i(b.t)
        return [(t, {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                     ast.GtE: x >= y}[type(op)])]

    def contains(self, x, c, st, X):
        """x in c -> [(st, Bool)]"""
        if isinstance(c, StaticSeq):
            return [(st, M.Or(*[self.pyeq(st, x, y) for y in c.items]))]
        if isinstance(c, ViewV):
            if c.kind == 'keys':
                return [(st, st.H.has(c.d.t, self.sv(st, x).t))]
            raise Unsupported('in view')
        if isinstance(c, SeqV):
            c = c.lst
        c = self.sv(st, c)
        x = self.sv(st, x)
        if c.lit is not None and c.ty[0] in ('tuple', 'list'):
            return [(st, M.Or(*[self.pyeq(st, x, y) for y in c.lit]))]
        H = st.H
        k = c.ty[0]
        if k in ('dict', 'set') or (k == 'obj' and c.ty[1] in T.DICT_CLASSES):
            s = self.need(st, M.And(M.Or(H.isdict(c.t), H.isset(c.t)), self.hashable(st, x)), X, 'TypeError')
            return [(s, s.H.has(c.t, x.t))] if s is not None else []
        if k == 'str':
            return [(st, self.str_contains(c.t, x.t))]
        if k == 'list':
            return [(st, self.in_list(st, x, c))]
        if k == 'any' or k == 'opt':
            # decide by kind
            out = []
            t, f = self.branch(st, M.Or(H.isdict(c.t), H.isset(c.t)))
            if t is not None:
                t = self.need(t, self.hashable(t, x), X, 'TypeError')
            if t is not None:
                out.append((t, t.H.has(c.t, x.t)))
            if f is not None:
                t, f = self.branch(f, H.islist(c.t))
                if t is not None:
                    out.append((t, self.in_list(t, x, c)))
                if f is not None:
                    t, f = self.branch(f, M.V.is_str(c.t))
                    if t is not None:
                        out.append((t, self.str_contains(c.t, x.t)))
                    if f is not None:
                        self.raise_(f, 'TypeError', X)
            return out
        raise Unsupported('in %s' % (c.ty,))

    def str_contains(self, big, small):
        if M.STRING_MODE == 'smt':
            return z3.Contains(M.V.s(big), M.V.s(small))
        f = z3.Function('strin', M.S, M.S, z3.BoolSort())
        return f(M.V.s(small), M.V.s(big))

    def in_list(self, st, x, l):
        H = st.H
        seq, n = H.lseq(l.t), H.llen(l.t)
        # `in` uses ==; identity coincides with == for scalars, tuples of
        # scalars and objects without __eq__
        if x.ty[0] == 'obj' and x.ty[1] in T.DICT_CLASSES:
            raise Unsupported('in list of dict objects')
        if z3.is_select(seq) and z3.is_store(seq.arg(0)):
            q = M.fconst('lseq', M.SeqS)
            st.assume(q == seq)
            seq = q
        b = M.fconst('inl', z3.BoolSort())
        w = M.fconst('w', M.I)
        st.assume(z3.Implies(b, z3.And(w >= 0, w < n, z3.Select(seq, w) == x.t)))
        st.assume(M.forall(1, lambda j: M.Imp(
            M.And(M.Not(b), j >= 0, j < n), z3.Select(seq, j) != x.t),
            lambda j: [z3.Select(seq, j)], [M.I]))
        st.assume(n >= 0)
        return b

    def ev_BinOp(self, e, st, X):
        out = []
        for s, (a, b) in self.ev_seq([e.left, e.right], st, X):
            out.extend(self.binop(e.op, a, b, s, X))
        return out

    def binop(self, op, a, b, st, X):
        if isinstance(op, ast.Mod):
            if isinstance(a, SV) and a.ty[0] == 'str':
                return self.percent_format(a, b, st, X)
        if isinstance(op, ast.Add):
            a, b = self.sv(st, a), self.sv(st, b)
            if a.ty[0] == 'str' and b.ty[0] == 'str':
                return [(st, self.str_cat(a, b))]
            if a.ty[0] == 'int' and b.ty[0] == 'int':
                return [(st, self.isv(M.V.i(a.t) + M.V.i(b.t)))]
            if a.ty[0] == 'list' or b.ty[0] == 'list':
                st = self.need(st, M.And(st.H.islist(a.t), st.H.islist(b.t)), X, 'TypeError')
                return [(st, self.list_concat(st, a, b))] if st is not None else []
            # decide by kind
            out = []
            t, f = self.branch(st, M.And(M.V.is_str(a.t), M.V.is_str(b.t)))
            if t is not None:
                out.append((t, self.str_cat(a, b)))
            if f is not None:
                t, f = self.branch(f, M.And(f.H.islist(a.t), f.H.islist(b.t)))
                if t is not None:
                    out.append((t, self.list_concat(t, a, b)))
                if f is not None:
                    t, f = self.branch(f, M.And(M.V.is_int(a.t), M.V.is_int(b.t)))
                    if t is not None:
                        out.append((t, self.isv(M.V.i(a.t) + M.V.i(b.t))))
                    if f is not None:
                        self.raise_(f, 'TypeError', X)
            return out
        if isinstance(op, ast.Sub):
            a, b = self.sv(st, a), self.sv(st, b)
            if a.ty[0] == 'set':
                return [(st, self.set_op(st, 'diff', a, b))]
            st = self.need(st, M.And(M.V.is_int(a.t), M.V.is_int(b.t)), X, 'TypeError')
            return [(st, self.isv(M.V.i(a.t) - M.V.i(b.t)))] if st is not None else []
        if isinstance(op, ast.BitAnd):
            a, b = self.sv(st, a), self.sv(st, b)
            if a.ty[0] == 'set':
                return [(st, self.set_op(st, 'and', a, b))]
        if isinstance(op, ast.BitOr):
            a, b = self.sv(st, a), self.sv(st, b)
            if a.ty[0] == 'set':
                return [(st, self.set_op(st, 'or', a, b))]
        if isinstance(op, ast.Mult):
            a, b = self.sv(st, a), self.sv(st, b)
            if 'str' in (a.ty[0], b.ty[0]):
                return [(st, self.ssv('rep'))]
        raise Unsupported('operator %s' % type(op).__name__)

    def set_op(self, st, op, a, b):
        H = st.H
        ma, mb = H.dmap(a.t), H.dmap(b.t)
        v = self.alloc(st, 'set')
        m = M.fconst('set', M.MapS)

        def body(k):
            ia, ib = z3.Select(ma, k) != M.ABSENT, z3.Select(mb, k) != M.ABSENT
            c = {'diff': M.And(ia, M.Not(ib)), 'and': M.And(ia, ib), 'or': M.Or(ia, ib)}[op]
            return z3.Select(m, k) == z3.If(c, M.TRUE, M.ABSENT)
        st.assume(M.forall(1, body, lambda k: [z3.Select(m, k), z3.Select(ma, k)]))
        self.set_map(st, v, m)
        return SV(v, ('set', a.ty[1] if a.ty[0] == 'set' else ANY))

    def list_concat(self, st, a, b):
        H = st.H
        n1, n2 = H.llen(a.t), H.llen(b.t)
        s1, s2 = H.lseq(a.t), H.lseq(b.t)
        v = self.alloc(st, 'list')
        seq = self.seq_cat(st, s1, n1, s2, n2)
        self.set_list(st, v, n1 + n2, seq)
        ea = a.ty[1] if a.ty[0] == 'list' else ANY
        eb = b.ty[1] if b.ty[0] == 'list' else ANY
        lit = None
        if a.lit is not None and not a.lit:
            ea = eb
        if b.lit is not None and not b.lit:
            eb = ea
        return SV(v, ('list', ea if ea == eb else ANY))

    def seq_cat(self, st, s1, n1, s2, n2):
        seq = M.fconst('cat', M.SeqS)
        st.assume(n1 >= 0, n2 >= 0)
        st.assume(M.forall(1, lambda j: M.And(
            M.Imp(M.And(j >= 0, j < n1), z3.Select(seq, j) == z3.Select(s1, j)),
            M.Imp(M.And(j >= n1, j < n1 + n2), z3.Select(seq, j) == z3.Select(s2, j - n1))),
            lambda j: [z3.Select(seq, j)], [M.I]))
        st.assume(M.forall(1, lambda j: M.Imp(
            M.And(j >= 0, j < n1), z3.Select(seq, j) == z3.Select(s1, j)),
            lambda j: [z3.Select(s1, j)], [M.I]))
        st.assume(M.forall(1, lambda j: M.Imp(
            M.And(j >= 0, j < n2), z3.Select(seq, j + n1) == z3.Select(s2, j)),
            lambda j: [z3.Select(s2, j)], [M.I]))
        return seq

    def str_cat(self, a, b):
        if M.STRING_MODE == 'smt':
            return SV(M.V.str(z3.Concat(M.V.s(a.t), M.V.s(b.t))), ('str',))
        return self.cat_all([a, b])

    def cat_all(self, vs):
        """Concatenation in a canonical form: flat, from the left, adjacent literals joined."""
        f = z3.Function('strcat', M.S, M.S, M.S)
        parts = []

        def add(t):
            # t of sort S
            if z3.is_app(t) and t.decl().name() == 'strcat':
                add(t.arg(0))
                add(t.arg(1))
                return
            x = str_lit(M.V.str(t))
            if x is not None:
                if not x:
                    return
                if parts and isinstance(parts[-1], type('')):
                    parts[-1] += x
                    return
            parts.append(t if x is None else x)
        for v in vs:
            add(z3.simplify(M.V.s(v.t)))
        if all(isinstance(p, type('')) for p in parts):
            return self.const(''.join(parts))
        ts = [M.V.s(M.vstr(p)) if isinstance(p, type('')) else p for p in parts]
        t = ts[0]
        for u in ts[1:]:
            t = f(t, u)
        return SV(M.V.str(t), ('str',))

    def percent_format(self, a, b, st, X):
        text = str_lit(a.t)
        import re as _re
        if text is None and a.t.get_id() in self.holes:
            n, text = self.holes[a.t.get_id()][:2]
        elif text is None:
            bad = z3.Bool(M.fresh_name('badfmt'))
            st = self.need(st, M.Not(bad), X, 'TypeError')
            st = self.need(st, M.Not(z3.Bool(M.fresh_name('badfmt'))), X, 'ValueError') if st is not None else None
            return [(st, self.ssv('fmt'))] if st is not None else []
        else:
            n = len(_re.findall(r'%(?!%)', text.replace('%%', '')))
        vals = None
        if isinstance(b, StaticSeq):
            vals = b.items
        elif isinstance(b, SV) and b.ty[0] == 'tuple':
            vals = [SV(M.tup_at(b.t, len(b.ty[1]), i), b.ty[1][i]) for i in range(len(b.ty[1]))]
            st = self.need(st, M.tup_is(b.t, len(vals)), X, 'TypeError')
            if st is None:
                return []
        elif isinstance(b, SV) and b.ty[0] in ('any', 'opt') and n > 1:
            st = self.need(st, M.tup_is(b.t, n), X, 'TypeError')
            if st is None:
                return []
            vals = [SV(M.tup_at(b.t, n, i)) for i in range(n)]
        else:
            vals = [self.sv(st, b)]
            if vals[0].ty[0] in ('any', 'opt'):
                st = self.need(st, M.Not(M.Or(*[M.tup_is(vals[0].t, k) for k in (0, 2, 3, 4)])), X, 'TypeError')
                if st is None:
                    return []
        if len(vals) != n:
            self.raise_(st, 'TypeError', X)
            return []
        vals = [self.sv(st, v) for v in vals]
        r = self.fmt_result('%:' + text, vals, st)
        if str_lit(a.t) is not None:
            self.formatted[r.t.get_id()] = (text, vals, r.t)
        return [(st, r)]

    def fmt_result(self, text, vals, st):
        """Deterministic uninterpreted result of string formatting."""
        if M.STRING_MODE == 'smt':
            return self.ssv('fmt')
        f = z3.Function('fmt:' + text, *([M.V] * len(vals) + [M.S]))
        other = M.V.str(f(*[v.t for v in vals]))
        lit = self.plain_format(text) if vals else None
        if lit is not None and sorted(x for x in lit if isinstance(x, int)) == list(range(len(vals))):
            open_ = [v for v in vals if v.ty != ('str',)]
            if all(v.ty == ANY for v in open_) and (not open_ or self.refuted(st, M.Not(M.And(*[M.V.is_str(v.t) for v in open_])))):
                return self.cat_all([SV(vals[x].t, ('str',)) if isinstance(x, int) else self.const(x) for x in lit])
        return SV(other, ('str',))

    @staticmethod
    def plain_format(text):
        """Literal parts and argument numbers of a format of texts, or None."""
        kind, text = text.split(':', 1)
        if kind == 'f':
            text = text.replace('{}', '\0').replace('{', '{{').replace('}', '}}').replace('\0', '{}')
        out, n = [''], 0
        if kind == '%':
            parts = text.split('%s')
            if any('%' in p for p in parts):
                return None
            out = [parts[0]]
            for i, p in enumerate(parts[1:]):
                out += [i, p]
            return out
        import string
        try:
            for lit, fld, spec, conv in string.Formatter().parse(text):
                out[-1] += lit
                if fld is None:
                    continue
                if spec or conv or not (fld == '' or fld.isdigit()):
                    return None
                out += [int(fld) if fld else n, '']
                n += 1
        except ValueError:
            return None
        return out

    def ev_JoinedStr(self, e, st, X):
        parts = [p.value for p in e.values if isinstance(p, ast.FormattedValue)]
        out = []
        for s, vals in self.ev_seq(parts, st, X):
            text = ''.join(p.value if isinstance(p, ast.Constant) else '{}' for p in e.values)
            try:
                svs = [self.sv(s, v) for v in vals]
                out.append((s, self.fmt_result('f:' + text, svs, s)))
            except Unsupported:
                out.append((s, self.ssv('fmt')))
        return out

    def ev_Subscript(self, e, st, X):
        out = []
        for s, v in self.ev(e.value, st, X):
            if isinstance(e.slice, ast.Slice):
                out.extend(self.slice(v, e.slice, s, X))
                continue
            for s2, k in self.ev(e.slice, s, X):
                out.extend(self.get_item(v, k, s2, X))
        return out

    def slice(self, v, sl, st, X):
        v = self.sv(st, v)
        lo = ast.unparse(sl.lower) if sl.lower else ''
        hi = ast.unparse(sl.upper) if sl.upper else ''
        stp = ast.unparse(sl.step) if sl.step else ''
        if v.ty[0] == 'list' and (lo, hi, stp) in (('', '', ''), ('0', '', '')):
            return [(st, self.to_list(v, st))]
        if v.ty[0] == 'list' and (hi, stp) == ('', '') and lo.isdigit():
            k = int(lo)
            n, s0 = st.H.llen(v.t), st.H.lseq(v.t)
            o = SV(self.alloc(st, 'list'), v.ty)
            seq = M.fconst('seq', M.SeqS)
            m = z3.If(n >= k, n - k, z3.IntVal(0))
            st.assume(M.forall(1, lambda j: M.Imp(
                M.And(j >= 0, j < m), z3.Select(seq, j) == z3.Select(s0, j + k)),
                lambda j: [z3.Select(seq, j)], [M.I]))
            self.set_list(st, o.t, m, seq)
            return [(st, o)]
        if v.ty[0] == 'str':
            if M.STRING_MODE == 'smt' and (hi, stp) == ('', '') and lo.isdigit():
                s = M.V.s(v.t)
                return [(st, SV(M.V.str(z3.SubString(s, z3.IntVal(int(lo)), z3.Length(s))), ('str',)))]
            f = z3.Function('slice:%s:%s:%s' % (lo, hi, stp), M.S, M.S)
            return [(st, SV(M.V.str(f(M.V.s(v.t))), ('str',)))]
        raise Unsupported('slice')

    def get_item(self, v, k, st, X):
        if isinstance(v, StaticSeq):
            kk = self.sv(st, k)
            i = int_lit(kk.t)
            if i is None:
                raise Unsupported('index')
            return [(st, v.items[i])]
        if isinstance(v, ViewV):
            self.raise_(st, 'TypeError', X)
            return []
        v, k = self.sv(st, v), self.sv(st, k)
        ty = v.ty
        H = st.H
        if ty[0] == 'opt':
            t, f = self.branch(st, v.t != M.NONE)
            if f is not None:
                self.raise_(f, 'TypeError', X)
            return self.get_item(SV(v.t, ty[1]), k, t, X) if t is not None else []
        if ty[0] == 'tuple':
            i = int_lit(k.t)
            if i is None:
                raise Unsupported('index')
            n = len(ty[1])
            st = self.need(st, M.tup_is(v.t, n), X, 'IndexError')
            if st is None:
                return []
            if not -n <= i < n:
                self.raise_(st, 'IndexError', X)
                return []
            return [(st, SV(M.tup_at(v.t, n, i % n), ty[1][i % n]))]
        if ty[0] == 'dict' or (ty[0] == 'obj' and ty[1] in T.DICT_CLASSES):
            st = self.need(st, M.And(H.isdict(v.t), self.hashable(st, k)), X, 'TypeError')
            if st is None:
                return []
            st = self.need(st, H.has(v.t, k.t), X, 'KeyError')
            if st is None:
                return []
            hint = ty[2] if ty[0] == 'dict' else ANY
            if ty[0] == 'obj':
                kl = str_lit(k.t)
                hint = T.parse(db.fields.get(ty[1], {}).get(kl, 'any')) if kl else ANY
            return [(st, self.hinted(st, H.get(v.t, k.t), hint))]
        if ty[0] == 'list':
            st = self.need(st, H.islist(v.t), X, 'TypeError')
            if st is None:
                return []
            i = int_lit(k.t)
            n = H.llen(v.t)
            if k.ty[0] != 'int':
                st = self.need(st, M.V.is_int(k.t), X, 'TypeError')
                if st is None:
                    return []
            idx = M.V.i(k.t)
            eff = z3.simplify(z3.If(idx < 0, n + idx, idx)) if i is None else (
                z3.IntVal(i) if i >= 0 else n + i)
            st = self.need(st, M.And(eff >= 0, eff < n), X, 'IndexError')
            if st is None:
                return []
            return [(st, self.hinted(st, H.at(v.t, eff), ty[1]))]
        if ty[0] == 'str':
            st = self.need(st, M.V.is_int(k.t), X, 'TypeError')
            if st is None:
                return []
            st = self.need(st, z3.Function('str index ok', M.V, M.I, z3.BoolSort())(v.t, M.V.i(k.t)), X, 'IndexError')
            return [(st, self.ssv('ch'))] if st is not None else []
        if ty[0] in ('any',):
            out = []
            t, f = self.branch(st, H.isdict(v.t))
            if t is not None:
                out.extend(self.get_item(SV(v.t, ('dict', ANY, ANY)), k, t, X))
            if f is not None:
                t, f = self.branch(f, H.islist(v.t))
                if t is not None:
                    out.extend(self.get_item(SV(v.t, ('list', ANY)), k, t, X))
                if f is not None:
                    t, f = self.branch(f, M.V.is_str(v.t))
                    if t is not None:
                        out.extend(self.get_item(SV(v.t, ('str',)), k, t, X))
                    i = int_lit(k.t)
                    for n in (1, 2, 3, 4):
                        if f is None:
                            break
                        t, f = self.branch(f, M.tup_is(v.t, n))
                        if t is not None:
                            if i is None and k.ty[0] == 'str':
                                self.raise_(t, 'TypeError', X)
                                continue
                            if i is None:
                                raise Unsupported('index')
                            if -n <= i < n:
                                out.append((t, SV(M.tup_at(v.t, n, i % n), ANY)))
                            else:
                                self.raise_(t, 'IndexError', X)
                    if f is not None:
                        self.raise_(f, 'TypeError', X)
            return out
        if ty[0] in ('none', 'bool', 'int', 'fun'):
            self.raise_(st, 'TypeError', X)
            return []
        if ty[0] == 'set':
            self.raise_(st, 'TypeError', X)
            return []
        if ty[0] == 'obj':
            m = self.repo.find_method(ty[1], '__getitem__')
            if m is None:
                self.raise_(st, 'TypeError', X)
                return []
        raise Unsupported('subscript of %s' % (ty,))

    def ev_Lambda(self, e, st, X):
        return [(st, LambdaV(e, self.closure_of(st), st.frame.module, st.frame))]

    def closure_of(self, st):
        return dict(st.loc)

    def ev_Starred(self, e, st, X):
        raise Unsupported('starred')

    def ev_Yield(self, e, st, X):
        out = []
        for s, v in (self.ev(e.value, st, X) if e.value else [(st, self.const(None))]):
            g = s.loc['$gen']
            self.list_append(s, g.t, self.sv(s, v).t)
            out.append((s, self.const(None)))
        return out

    # -- comprehensions ------------------------------------------------------
    def ev_ListComp(self, e, st, X):
        return self.comprehension(e, st, X, 'list')

    def ev_SetComp(self, e, st, X):
        return self.comprehension(e, st, X, 'set')

    def ev_DictComp(self, e, st, X):
        return self.comprehension(e, st, X, 'dict')

    def ev_GeneratorExp(self, e, st, X):
        return self.comprehension(e, st, X, 'list')

    def comprehension(self, e, st, X, kind):
        from . import loops
        return loops.comprehension(self, e, st, X, kind)

    # -- calls ---------------------------------------------------------------
    def ev_Call(self, e, st, X):
        from . import calls
        return calls.ev_call(self, e, st, X)

    def call_func(self, fi, args, kwargs, st, X, closure=None):
        from . import calls
        return calls.call_func(self, fi, args, kwargs, st, X, closure)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> list of (kind, state, value)"""
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.stmt(s, x):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        out.append(o)
            live = nxt
            if not live:
                break
            if len(live) > 400:
                raise PathLimit('too many paths')
        out.extend(('next', x, None) for x in live)
        return out

    def stmt(self, s, st):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.line = getattr(s, 'lineno', 0)
        return m(s, st)

    def outs(self, states, X):
        out = [('next', s, None) for s in states]
        out.extend(('exc', s, x) for s, x in X)
        return out

    def st_Pass(self, s, st):
        return [('next', st, None)]

    def st_Break(self, s, st):
        return [('brk', st, None)]

    def st_Continue(self, s, st):
        return [('cnt', st, None)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [('next', st, None)]
        X = []
        return self.outs([x for x, _ in self.ev(s.value, st, X)], X)

    def st_Global(self, s, st):
        st.frame.globals.update(s.names)
        return [('next', st, None)]

    def st_Nonlocal(self, s, st):
        raise Unsupported('nonlocal')

    def st_Import(self, s, st):
        for a in s.names:
            st.loc[(a.asname or a.name).split('.')[0]] = ModV(a.name if a.asname else a.name.split('.')[0])
        return [('next', st, None)]

    def st_ImportFrom(self, s, st):
        mod = s.module or ''
        if s.level:
            pkg = st.frame.module.name.split('.')[:-1]
            base = pkg[:len(pkg) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            r = self.repo.resolve_dotted(mod, a.name)
            st.loc[a.asname or a.name] = self.external(r[1]) if r[0] == 'ext' else self.resolved(r, st)
        return [('next', st, None)]

    def st_FunctionDef(self, s, st):
        fr = st.frame
        fi = FuncInfo(fr.module, fr.fi.qual + '.<locals>.' + s.name, s)
        st.loc[s.name] = FuncV(fi, closure=self.closure_of(st), frame=fr.id)
        return [('next', st, None)]

    def st_ClassDef(self, s, st):
        raise Unsupported('nested class')

    def st_Assert(self, s, st):
        X = []
        live = []
        for x, c in self.ev_cond(s.test, st, X):
            t, f = self.branch(x, c)
            if t is not None:
                live.append(t)
            if f is not None:
                self.raise_(f, 'AssertionError', X)
        return self.outs(live, X)

    def st_Assign(self, s, st):
        X = []
        live = []
        for x, v in self.ev(s.value, st, X):
            states = [x]
            for tgt in s.targets:
                nxt = []
                for y in states:
                    nxt.extend(self.assign(tgt, v, y, X))
                states = nxt
            live.extend(states)
        return self.outs(live, X)

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [('next', st, None)]
        X = []
        live = []
        for x, v in self.ev(s.value, st, X):
            live.extend(self.assign(s.target, v, x, X))
        return self.outs(live, X)

    def st_AugAssign(self, s, st):
        X = []
        live = []
        tgt = s.target
        if isinstance(tgt, ast.Name):
            load = ast.Name(id=tgt.id, ctx=ast.Load())
        elif isinstance(tgt, ast.Attribute):
            load = ast.Attribute(value=tgt.value, attr=tgt.attr, ctx=ast.Load())
        elif isinstance(tgt, ast.Subscript):
            load = ast.Subscript(value=tgt.value, slice=tgt.slice, ctx=ast.Load())
        else:
            raise Unsupported('augmented assignment')
        for x, (a, b) in self.ev_seq([load, s.value], st, X):
            if isinstance(s.op, ast.Add) and isinstance(a, SV) and a.ty[0] == 'list':
                b2 = self.sv(x, b)
                self.list_extend(x, a, b2)
                live.append(x)
                continue
            if isinstance(s.op, ast.BitOr) and isinstance(a, SV) and a.ty[0] == 'set':
                from . import builtins_ as B
                B.map_update(self, x, a, x.H.dmap(self.sv(x, b).t))
                live.append(x)
                continue
            for y, v in self.binop(s.op, a, b, x, X):
                live.extend(self.assign(tgt, v, y, X))
        return self.outs(live, X)

    def list_extend(self, st, l, other):
        H = st.H
        n1, n2 = H.llen(l.t), H.llen(other.t)
        seq = self.seq_cat(st, H.lseq(l.t), n1, H.lseq(other.t), n2)
        self.set_list(st, l.t, n1 + n2, seq)

    def assign(self, tgt, v, st, X):
        """-> list of states"""
        if isinstance(tgt, ast.Name):
            if tgt.id in st.frame.globals:
                key = '%s:%s' % (st.frame.module.name, tgt.id)
                if key not in db.mutable_globals:
                    raise Unsupported('assignment to global %s' % key)
                st.h['g.' + key] = self.sv(st, v).t
                return [st]
            if isinstance(v, SV) and v.lit is not None and v.ty[0] != 'tuple':
                # a literal list may be changed later through the name
                if v.lit or v.ty[0] in ('list', 'dict'):
                    v = SV(v.t, v.ty, snap=None)
            st.loc[tgt.id] = v
            return [st]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            out = []
            for s, vals in self.unpack(st, v, len(tgt.elts), X):
                states = [s]
                for sub, x in zip(tgt.elts, vals):
                    nxt = []
                    for y in states:
                        nxt.extend(self.assign(sub, x, y, X))
                    states = nxt
                out.extend(states)
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for s, (o, k) in self.ev_seq([tgt.value, tgt.slice], st, X):
                o = self.sv(s, o)
                k = self.sv(s, k)
                H = s.H
                if o.ty[0] == 'opt':
                    t, f = self.branch(s, o.t != M.NONE)
                    if f is not None:
                        self.raise_(f, 'TypeError', X)
                    if t is None:
                        continue
                    s = t
                    o = SV(o.t, o.ty[1])
                if o.ty[0] == 'list':
                    n = H.llen(o.t)
                    idx = M.V.i(k.t)
                    eff = z3.If(idx < 0, n + idx, idx)
                    t = self.need(s, M.And(M.V.is_int(k.t), eff >= 0, eff < n), X, 'IndexError')
                    if t is None:
                        continue
                    vv = self.sv(t, v)
                    self.own(t, o.t, k.t, vv.t)
                    self.set_list(t, o.t, n, z3.Store(t.H.lseq(o.t), eff, vv.t))
                    out.append(t)
                    continue
                t = self.need(s, M.And(H.isdict(o.t), self.hashable(s, k)), X, 'TypeError')
                if t is None:
                    continue
                vv = self.sv(t, v)
                self.dict_set(t, o.t, k.t, vv.t)
                out.append(t)
            return out
        if isinstance(tgt, ast.Attribute):
            out = []
            for s, o in self.ev(tgt.value, st, X):
                out.extend(self.set_attr(o, tgt.attr, v, s, X))
            return out
        raise Unsupported('assignment target')

    def set_attr(self, o, attr, v, st, X):
        o = self.sv(st, o)
        if o.ty[0] == 'opt':
            t, f = self.branch(st, o.t != M.NONE)
            if f is not None:
                self.raise_(f, 'AttributeError', X)
            return self.set_attr(SV(o.t, o.ty[1]), attr, v, t, X) if t is not None else []
        if o.ty[0] == 'exc':
            if 'f.' + attr in st.h:
                self.set_field(st, o.t, attr, self.sv(st, v).t)
            return [st]
        if o.ty[0] != 'obj':
            raise Unsupported('attribute store on %s' % (o.ty,))
        cname = o.ty[1]
        if cname in T.DICT_CLASSES:
            if attr == '__dict__':
                return [st]
            st = self.need(st, st.H.isdict(o.t), X, 'AttributeError')
            if st is None:
                return []
            self.dict_set(st, o.t, M.vstr(attr), self.sv(st, v).t)
            return [st]
        st = self.need(st, st.H.inst(o.t, cname), X, 'AttributeError')
        if st is None:
            return []
        for c in self.repo.mro(cname):
            k = 'iface:%s.%s=set' % (c, attr)
            if k in db.contracts:
                from . import calls
                return [s for s, _ in calls.apply_contract(self, db.contracts[k], [o, self.sv(st, v)], st, X)]
        setter = self.repo.find_setter(cname, attr)
        if setter is not None and not setter.is_abstract:
            return [s for s, _ in self.call_func(setter, [o, v], {}, st, X)]
        if self.repo.find_method(cname, attr) is not None and \
                self.repo.find_method(cname, attr).is_property and setter is None:
            self.raise_(st, 'AttributeError', X)
            return []
        vv = self.sv(st, v)
        self.store_field(st, o, cname, attr, vv)
        return [st]

    def store_field(self, st, o, cname, attr, vv):
        for c in self.repo.mro(cname):
            if attr in db.fields.get(c, {}):
                ty = T.parse(db.fields[c][attr])
                kf = kindfact(st, vv.t, ty)
                if not z3.is_true(kf):
                    self.oblige(st, 'attribute %s.%s has its declared type' % (cname, attr), kf)
                break
        self.set_field(st, o.t, attr, vv.t)

    def st_Delete(self, s, st):
        X = []
        states = [st]
        for tgt in s.targets:
            nxt = []
            for x in states:
                if isinstance(tgt, ast.Name):
                    if tgt.id not in x.loc:
                        self.raise_(x, 'UnboundLocalError', X)
                        continue
                    del x.loc[tgt.id]
                    nxt.append(x)
                elif isinstance(tgt, ast.Subscript):
                    for y, (o, k) in self.ev_seq([tgt.value, tgt.slice], x, X):
                        o, k = self.sv(y, o), self.sv(y, k)
                        if o.ty[0] == 'list':
                            raise Unsupported('del list element')
                        y = self.need(y, y.H.isdict(o.t), X, 'TypeError')
                        if y is None:
                            continue
                        y = self.need(y, y.H.has(o.t, k.t), X, 'KeyError')
                        if y is None:
                            continue
                        self.dict_del(y, o.t, k.t)
                        nxt.append(y)
                else:
                    raise Unsupported('del target')
            states = nxt
        return self.outs(states, X)

    def st_If(self, s, st):
        X = []
        out = []
        for x, c in self.ev_cond(s.test, st, X):
            t, f = self.branch(x, c)
            if t is not None:
                self.refine(s.test, t, True)
                out.extend(self.block(s.body, t))
            if f is not None:
                self.refine(s.test, f, False)
                out.extend(self.block(s.orelse, f))
        return out + [('exc', a, b) for a, b in X]

    def refine(self, test, st, pos):
        """Refine type hints of locals from a simple test (hints only)."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, st, not pos)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pos or isinstance(test.op, ast.Or) and not pos:
                for v in test.values:
                    self.refine(v, st, pos)
            return
        name = None
        hint = None
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and \
                test.func.id == 'isinstance' and pos and isinstance(test.args[0], ast.Name):
            name = test.args[0].id
            c = test.args[1]
            cn = c.id if isinstance(c, ast.Name) else None
            hint = {'dict': ('dict', ANY, ANY), 'list': ('list', ANY), 'text_type': ('str',),
                    'str': ('str',), 'bool': ('bool',), 'set': ('set', ANY),
                    'ConfigDict': ('obj', 'ConfigDict')}.get(cn)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], ast.Is) == pos
            v = st.loc.get(test.left.id)
            if isinstance(v, SV) and v.ty[0] == 'opt':
                st.loc[test.left.id] = SV(v.t, ('none',) if isnone else v.ty[1], v.lit, v.snap)
            return
        elif isinstance(test, ast.Name) and pos:
            v = st.loc.get(test.id)
            if isinstance(v, SV) and v.ty[0] == 'opt':
                st.loc[test.id] = SV(v.t, v.ty[1], v.lit, v.snap)
            return
        if name and hint:
            v = st.loc.get(name)
            if isinstance(v, SV) and v.ty[0] in ('any', 'opt'):
                st.loc[name] = SV(v.t, hint, v.lit, v.snap)

    def st_Return(self, s, st):
        if s.value is None:
            return [('ret', st, self.const(None))]
        X = []
        out = [('ret', x, v) for x, v in self.ev(s.value, st, X)]
        return out + [('exc', a, b) for a, b in X]

    def st_Raise(self, s, st):
        if s.exc is None:
            if st.exc is None:
                X = []
                self.raise_(st, 'RuntimeError', X)
                return [('exc', a, b) for a, b in X]
            return [('exc', st, st.exc)]
        X = []
        out = []
        for x, v in self.ev(s.exc, st, X):
            if isinstance(v, ClassV):
                self.raise_(x, v.name, X)
                continue
            v = self.sv(x, v)
            if v.ty[0] != 'exc':
                raise Unsupported('raise of non-exception')
            X.append((x, ExcV(v.ty[1], v)))
        return [('exc', a, b) for a, b in X]

    def st_Try(self, s, st):
        results = self.block(s.body, st)
        out = []
        for kind, x, v in results:
            if kind == 'next' and s.orelse:
                out.extend(self.block(s.orelse, x))
            elif kind == 'exc' and s.handlers:
                out.extend(self.handle(s, x, v))
            else:
                out.append((kind, x, v))
        if s.finalbody:
            fin = []
            for kind, x, v in out:
                for k2, y, w in self.block(s.finalbody, x):
                    fin.append((kind, y, v) if k2 == 'next' else (k2, y, w))
            out = fin
        return out

    def handle(self, s, st, exc):
        out = []
        for h in s.handlers:
            names = self.handler_names(h.type, st)
            if names is None or any(self.repo.exc_sub(exc.name, n) for n in names):
                return out + self.run_handler(h, st, exc)
            # an exception that may be an instance of the handler class
            for n in names:
                if exc.open is not None and self.repo.exc_sub(n, exc.name) and not any(
                        self.repo.exc_sub(n, x) for x in exc.open):
                    out.extend(self.run_handler(h, st.copy(), ExcV(n, exc.sv, exc.open)))
                    exc = ExcV(exc.name, exc.sv, exc.open + (n,))
        return out + [('exc', st, exc)]

    def run_handler(self, h, st, exc):
        saved = st.exc
        st.exc = exc
        if h.name:
            st.loc[h.name] = exc.sv
        res = []
        for k, x, v in self.block(h.body, st):
            x.exc = saved
            if h.name:
                x.loc.pop(h.name, None)
            res.append((k, x, v))
        return res

    def handler_names(self, t, st):
        if t is None:
            return None
        if isinstance(t, ast.Tuple):
            return [n for x in t.elts for n in self.handler_names(x, st)]
        X = []
        (_, v), = self.ev(t, st, X)
        if not isinstance(v, ClassV):
            raise Unsupported('exception handler type')
        return [v.name]

    def st_With(self, s, st):
        from . import calls
        X = []
        states = [st]
        closers = []
        for item in s.items:
            nxt = []
            for x in states:
                for y, v in self.ev(item.context_expr, x, X):
                    if isinstance(v, SV) and v.ty == ('obj', 'File') or isinstance(v, ExtV):
                        w = v
                    else:
                        raise Unsupported('with %r' % (v,))
                    if item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, w, y, X))
                    else:
                        nxt.append(y)
            states = nxt
        out = []
        for x in states:
            out.extend(self.block(s.body, x))
        return out + [('exc', a, b) for a, b in X]

    def st_For(self, s, st):
        from . import loops
        return loops.for_loop(self, s, st)

    def st_While(self, s, st):
        from . import loops
        return loops.while_loop(self, s, st)


class SetDiff(object):
    pass


DICT_METHODS = {'get', 'items', 'keys', 'values', 'pop', 'update', 'copy', 'setdefault'}


def same_heap(a, b):
    if not a.alloc.eq(b.alloc):
        return False
    if a.h.keys() != b.h.keys():
        return False
    return all(a.h[k].eq(b.h[k]) for k in a.h)


def str_lit(t):
    """Python string of a literal V term, else None."""
    if z3.is_app(t) and t.decl().name() == 'str' and t.num_args() == 1:
        a = t.arg(0)
        if M.STRING_MODE == 'opaque':
            if z3.is_int_value(a):
                return M.str_name(a.as_long())
        elif z3.is_string_value(a):
            return a.as_string()
    return None


def int_lit(t):
    if z3.is_app(t) and t.decl().name() == 'int' and t.num_args() == 1:
        a = z3.simplify(t.arg(0))
        if z3.is_int_value(a):
            return a.as_long()
    return None


def kindfact(st, t, ty):
    """Shallow semantic content of a type hint."""
    k = ty[0]
    if k in ('any', 'empty'):
        return M.And()
    if k == 'none':
        return t == M.NONE
    if k == 'opt':
        return M.Or(t == M.NONE, kindfact(st, t, ty[1]))
    if k == 'str':
        return M.V.is_str(t)
    if k == 'int':
        return M.V.is_int(t)
    if k == 'bool':
        return M.V.is_bool(t)
    if k == 'fun':
        return M.V.is_fun(t)
    if k == 'tuple':
        n = len(ty[1])
        return M.And(M.tup_is(t, n), *[kindfact(st, M.tup_at(t, n, i), ty[1][i]) for i in range(n)])
    H = st.H
    if k == 'list':
        return M.And(H.islist(t))
    if k == 'dict':
        return H.isdict(t)
    if k == 'set':
        return H.isset(t)
    if k == 'obj':
        if ty[1] in T.DICT_CLASSES:
            return M.And(H.isdict(t), H.inst(t, ty[1]))
        return M.And(H.iskind(t, 'obj'), H.inst(t, ty[1]))
    if k == 'exc':
        return M.And(M.V.is_ref(t), M.kindf(M.V.r(t)) == M.K_EXC)
    return M.And()
