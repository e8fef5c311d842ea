"""Calls: dispatch, inlining and contract application."""
import ast

import z3

from . import model as M
from . import types as T
from . import exec as E
from . import names as NM
from . import loops as L
from .db import db, Contract
from .front import FuncInfo

ANY = ('any',)
Unsupported = M.Unsupported
MAX_INLINE = 9

NOOP = {'xylem.log_utils:' + n for n in ('info', 'info_v', 'error', 'warning', 'debug')}


class Args(object):
    """Argument terms, by parameter name."""
    def __init__(self, d):
        self.__dict__.update(d)

    def __getitem__(self, k):
        return self.__dict__[k]


class Pre(object):
    def __init__(self, heap, args, ghost=None):
        self.pre_heap = heap
        self.args = args
        self.ghost = ghost or {}


def snapshot(st):
    return M.Heap(dict(st.h), st.alloc)


# ------------------------------------------------------------------ dispatch
def ev_call(ex, e, st, X):
    f = e.func
    if isinstance(f, ast.Name) and f.id == 'super' and f.id not in st.loc:
        if e.args:
            (s, c), = ex.ev(e.args[0], st, X)
            (s, o), = ex.ev(e.args[1], s, X)
            return [(s, E.SuperV(c.name, o))]
        return [(st, E.SuperV(st.frame.fi.cls.name, st.loc['self']))]
    out = []
    for s, fv in ex.ev(f, st, X):
        for s2, args, kwargs in ev_args(ex, e, s, X):
            out.extend(call_value(ex, fv, args, kwargs, s2, X, e))
    return out


def ev_args(ex, e, st, X):
    acc = [(st, [])]
    for a in e.args:
        nxt = []
        node = a.value if isinstance(a, ast.Starred) else a
        for s, vals in acc:
            for s2, v in ex.ev(node, s, X):
                if isinstance(a, ast.Starred):
                    if isinstance(v, E.StaticSeq):
                        nxt.append((s2, vals + list(v.items)))
                    elif isinstance(v, E.SV) and v.ty[0] == 'tuple':
                        n = len(v.ty[1])
                        nxt.append((s2, vals + [E.SV(M.tup_at(v.t, n, i), v.ty[1][i])
                                                for i in range(n)]))
                    else:
                        nxt.append((s2, vals + [('star', v)]))
                else:
                    nxt.append((s2, vals + [v]))
        acc = nxt
    out = []
    for s, vals in acc:
        kacc = [(s, {})]
        for k in e.keywords:
            nxt = []
            for s2, kw in kacc:
                for s3, v in ex.ev(k.value, s2, X):
                    if k.arg is None:
                        if isinstance(v, E.SV) and v.ty[0] == 'kwargs':
                            kw2 = dict(kw)
                            kw2.update({'**': v} if v.lit is None else v.lit)
                            nxt.append((s3, kw2))
                            continue
                        raise Unsupported('** argument')
                    kw2 = dict(kw)
                    kw2[k.arg] = v
                    nxt.append((s3, kw2))
            kacc = nxt
        out.extend((s2, list(vals), kw) for s2, kw in kacc)
    return out


def call_value(ex, fv, args, kwargs, st, X, node=None):
    from . import builtins_ as B
    if any(isinstance(a, tuple) for a in args) and not isinstance(fv, (E.ExtV, E.FuncV)) and not (
            isinstance(fv, E.ClassV) and 'class:' + fv.name in db.externals):
        raise Unsupported('* argument')
    if isinstance(fv, E.FuncV):
        clo = fv.closure
        if clo is not None and fv.frame is st.frame.id:
            clo = ex.closure_of(st)
        a = list(args)
        if fv.bound is not None:
            a = [fv.bound] + a
        return call_func(ex, fv.fi, a, kwargs, st, X, clo)
    if isinstance(fv, E.LambdaV):
        return call_lambda(ex, fv, args, kwargs, st, X)
    if isinstance(fv, E.ClassV):
        return call_class(ex, fv, args, kwargs, st, X, node)
    if isinstance(fv, E.ExtV):
        h = db.externals.get(fv.name)
        if h is not None:
            return h(ex, st, args, kwargs, X, node)
        return B.builtin(ex, fv.name, args, kwargs, st, X, node)
    if isinstance(fv, E.BoundM):
        return call_method(ex, fv.obj, fv.name, args, kwargs, st, X, node)
    if isinstance(fv, E.SV):
        if fv.ty[0] == 'fun' or fv.ty == ANY:
            h = getattr(ex.contract, 'callbacks', None) or db.externals.get('$callback')
            h = getattr(h, '__func__', h)
            if h is not None:
                return h(ex, st, [fv] + list(args), kwargs, X, node)
        if fv.ty[0] == 'obj':
            return call_method(ex, fv, '__call__', args, kwargs, st, X, node)
    raise Unsupported('call of %r' % (fv,))


def call_lambda(ex, fv, args, kwargs, st, X):
    node = fv.node
    saved_loc, saved_frame = st.loc, st.frame
    clo = fv.closure
    if fv.frame is not None and st.frame is fv.frame:
        clo = ex.closure_of(st)
    fi = FuncInfo(fv.module, '<lambda>', node)
    fr = E.Frame(fi, None, parent=st.frame, pre=st.frame.pre)
    loc = {'$closure': clo}
    params = [a.arg for a in node.args.args]
    if node.args.vararg or node.args.kwarg or kwargs:
        raise Unsupported('lambda arguments')
    for n, v in zip(params, args):
        loc[n] = v
    ndef = len(node.args.defaults)
    if len(params) > len(args):
        for n, d in zip(params[len(args):], node.args.defaults[ndef - (len(params) - len(args)):]):
            (_, v), = ex.ev(d, st, X)
            loc[n] = v
    st.loc, st.frame = loc, fr
    X2 = []
    out = []
    for s, v in ex.ev(node.body, st, X2):
        s.loc, s.frame = saved_loc if s is st else dict(saved_loc), saved_frame
        out.append((s, v))
    for s, x in X2:
        s.loc, s.frame = dict(saved_loc), saved_frame
        X.append((s, x))
    return out


def call_class(ex, fv, args, kwargs, st, X, node):
    from . import builtins_ as B
    name = fv.name
    if ex.repo.is_exc_class(name):
        o = ex.new_exc(st, name)
        init = ex.repo.find_method(name, '__init__')
        if init is not None:
            return [(s, o) for s, _ in call_func(ex, init, [o] + args, kwargs, st, X)]
        return [(st, o)]
    if fv.ci is None:
        return B.construct(ex, name, args, kwargs, st, X, node)
    h = db.externals.get('class:' + name)
    if h is not None:
        return h(ex, st, args, kwargs, X, node)
    if name in T.DICT_CLASSES:
        o = ex.new_dict(st, name)
        init = ex.repo.find_method(name, '__init__')
        if init is None:
            if len(args) > 1 or kwargs:
                raise Unsupported('dict class arguments')
            if args:
                src = ex.sv(st, args[0])
                st = ex.need(st, st.H.isdict(src.t), X, 'TypeError')
                if st is None:
                    return []
                B.map_update(ex, st, o, st.H.dmap(src.t))
            return [(st, o)]
        return [(s, o) for s, _ in call_func(ex, init, [o] + args, kwargs, st, X)]
    o = E.SV(ex.alloc(st, 'obj', name), ('obj', name))
    init = ex.repo.find_method(name, '__init__')
    if init is None:
        return [(st, o)]
    return [(s, o) for s, _ in call_func(ex, init, [o] + args, kwargs, st, X)]


def call_method(ex, obj, name, args, kwargs, st, X, node):
    from . import builtins_ as B
    if isinstance(obj, E.SuperV):
        ty = obj.obj.ty
        cname = ty[1]
        fi = ex.repo.find_method(cname, name, after=obj.cls)
        if fi is None or fi.is_abstract:
            if name == '__init__':
                if cname in T.DICT_CLASSES:
                    for a in args:
                        st = ex.need(st, st.H.isdict(ex.sv(st, a).t), X, 'TypeError')
                        if st is None:
                            return []
                        B.map_update(ex, st, obj.obj, st.H.dmap(ex.sv(st, a).t))
                return [(st, ex.const(None))]
            if cname in T.DICT_CLASSES:
                return B.method(ex, E.SV(obj.obj.t, ('dict', ANY, ANY)), name, args, kwargs, st, X, node)
            raise Unsupported('super().%s' % name)
        return call_func(ex, fi, [obj.obj] + args, kwargs, st, X)
    if isinstance(obj, E.ClassV):
        h = db.externals.get('%s.%s' % (obj.name, name))
        if h is not None:
            return h(ex, st, args, kwargs, X, node)
        return B.class_method(ex, obj, name, args, kwargs, st, X, node)
    if isinstance(obj, E.SV) and obj.ty[0] == 'obj':
        cname = obj.ty[1]
        for c in ex.repo.mro(cname):
            k = 'iface:%s.%s' % (c, name)
            if k in db.contracts:
                st = ex.need(st, st.H.inst(obj.t, cname), X, 'AttributeError')
                if st is None:
                    return []
                ct = db.contracts[k]
                return apply_contract(ex, ct, bind_iface(ex, ct, [obj] + args, kwargs, st), st, X)
            ci = ex.repo.classes.get(c)
            if ci and name in ci.methods and not ci.methods[name].is_abstract:
                st = ex.need(st, st.H.inst(obj.t, cname), X, 'AttributeError')
                if st is None:
                    return []
                m = ci.methods[name]
                a = args if m.is_static else [obj] + args
                return call_func(ex, m, a, kwargs, st, X)
        if cname in T.DICT_CLASSES:
            return B.method(ex, obj, name, args, kwargs, st, X, node)
        h = db.externals.get('%s.%s' % (cname, name))
        if h is not None:
            return h(ex, st, [obj] + args, kwargs, X, node)
        raise Unsupported('method %s.%s' % (cname, name))
    if isinstance(obj, E.SV) and obj.ty[0] in ('any', 'fun') and '$method.' + name in db.externals:
        return db.externals.get('$method.' + name)(ex, st, [obj] + args, kwargs, X, node)
    return B.method(ex, obj, name, args, kwargs, st, X, node)


def bind_iface(ex, ct, args, kwargs, st):
    params = ct.params
    out = [ex.sv(st, a) for a in args]
    defaults = getattr(ct, 'defaults', {})
    for p in params[len(out):]:
        if p in kwargs:
            out.append(ex.sv(st, kwargs[p]))
        elif p in defaults:
            out.append(ex.const(defaults[p]))
        else:
            raise Unsupported('argument %s of %s' % (p, ct.key))
    return out


# ------------------------------------------------------------------ binding
def bind(ex, fi, args, kwargs, st, X):
    """-> dict parameter -> value, or None (TypeError raised)."""
    if '**' in kwargs:
        raise Unsupported('** argument')
    a = fi.node.args
    params = [p.arg for p in getattr(a, 'posonlyargs', []) + a.args]
    loc = {}
    kw = dict(kwargs)
    if len(args) > len(params) and not a.vararg:
        ex.raise_(st, 'TypeError', X)
        return None
    for p, v in zip(params, args):
        if p in kw:
            ex.raise_(st, 'TypeError', X)
            return None
        loc[p] = v
    if a.vararg:
        loc[a.vararg.arg] = E.StaticSeq(list(args[len(params):]))
    nd = len(a.defaults)
    defaults = dict(zip(params[len(params) - nd:], a.defaults)) if nd else {}
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        params.append(p.arg)
        if d is not None:
            defaults[p.arg] = d
    for p in params:
        if p in loc:
            continue
        if p in kw:
            loc[p] = kw.pop(p)
        elif p in defaults:
            loc[p] = default_value(ex, fi, defaults[p], st)
        else:
            ex.raise_(st, 'TypeError', X)
            return None
    if a.kwarg:
        loc[a.kwarg.arg] = E.SV(M.NONE, ('kwargs',), lit=dict(kw))
    elif kw:
        ex.raise_(st, 'TypeError', X)
        return None
    return loc


def default_value(ex, fi, d, st):
    if isinstance(d, ast.Constant):
        return ex.const(d.value)
    if isinstance(d, ast.List) and not d.elts:
        # shared mutable default: treated as an empty list that is never
        # modified (checked by the frame of the callee)
        l = ex.new_list(st, [])
        l.lit = []
        return l
    if isinstance(d, ast.Dict) and not d.keys:
        r = ex.new_dict(st)
        return r
    if isinstance(d, ast.Name):
        return ex.global_name(d.id, fi.module, st)
    raise Unsupported('default value %s' % ast.unparse(d))


# ------------------------------------------------------------------ functions
def call_func(ex, fi, args, kwargs, st, X, closure=None):
    key = fi.key
    if key in NOOP:
        return [(st, ex.const(None))]
    h = db.externals.get(key)
    if h is not None:
        return h(ex, st, args, kwargs, X, None)
    ct = db.contracts.get(key)
    contracted = ct is not None and not ct.inline and key not in ex.contract.use_inline
    rest = None
    if any(isinstance(a, tuple) for a in args):
        if not contracted or not fi.node.args.vararg:
            raise Unsupported('* argument')
        st, args, rest = unstar(ex, fi, args, kwargs, st, X)
        if st is None:
            return []
    loc = bind(ex, fi, args, kwargs, st, X)
    if loc is None:
        return []
    if contracted:
        params = params_of(fi, ct)
        va = fi.node.args.vararg
        if va:
            loc[va.arg] = rest if rest is not None else ex.new_list(st, [ex.sv(st, v) for v in loc[va.arg].items])
        return apply_contract(ex, ct, [ex.sv(st, loc[p]) for p in params], st, X, NM.contract_params(fi, params))
    return inline(ex, fi, loc, st, X, closure, ct)


def params_of(fi, ct):
    """Parameters of a function under contract: *args stand as a list of the given type."""
    a = fi.node.args
    if a.kwarg and a.kwarg.arg not in ct.types or a.vararg and a.vararg.arg not in ct.types:
        raise Unsupported('* parameters in function under contract %s' % fi.key)
    return [p.arg for p in a.args] + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs]


def unstar(ex, fi, args, kwargs, st, X):
    """f(a, *l): the first elements of l are the missing parameters, the others the list of the rest."""
    star = args[-1]
    if any(isinstance(a, tuple) for a in args[:-1]) or kwargs:
        raise Unsupported('* argument')
    l = star[1]
    if not isinstance(l, E.SV) or l.ty[0] != 'list':
        raise Unsupported('* argument')
    need = len(fi.node.args.args) - len(args) + 1
    if need < 0 or fi.node.args.defaults:
        raise Unsupported('* argument')
    n, seq = st.H.llen(l.t), st.H.lseq(l.t)
    st = ex.need(st, n >= need, X, 'TypeError')
    if st is None:
        return None, None, None
    first = [ex.hinted(st, z3.Select(seq, i), l.ty[1]) for i in range(need)]
    o = E.SV(ex.alloc(st, 'list'), l.ty)
    s2 = M.fconst('rest', M.SeqS)
    st.assume(M.forall(1, lambda j: M.Imp(M.And(j >= 0, j < n - need), z3.Select(s2, j) == z3.Select(seq, j + need)),
                       lambda j: [z3.Select(s2, j)], [M.I]))
    ex.set_list(st, o.t, n - need, s2)
    return st, list(args[:-1]) + first, o


def inline(ex, fi, loc, st, X, closure, ct):
    key = fi.key
    if key in ex.inline_stack or len(ex.inline_stack) >= MAX_INLINE:
        raise Unsupported('recursion or inlining depth at %s' % key)
    ex.inlined.add(key)
    ex.inline_stack.append(key)
    try:
        saved_loc, saved_frame, saved_exc = st.loc, st.frame, st.exc
        terms = {}
        for k, v in loc.items():
            if isinstance(v, E.SV) and v.ty[0] != 'kwargs':
                terms[k] = v.t
        if ct is not None:
            ps = NM.params(fi.node)
            for p, q in zip(ps, NM.contract_params(fi, ps)):
                if p in terms:
                    terms[q] = terms[p]
        pre = Pre(snapshot(st), Args(terms), st.frame.pre.ghost if st.frame else {})
        fr = E.Frame(fi, ct, parent=st.frame, pre=pre)
        nl = dict(loc)
        if ct is not None:
            ps = NM.params(fi.node)
            old = dict(zip(NM.contract_params(fi, ps), ps))
            for p, t in ct.types.items():
                p = old.get(p, p)
                v = nl.get(p)
                if isinstance(v, E.SV) and v.ty == ANY:
                    ty = T.parse(t)
                    nl[p] = ex.hinted(st, v.t, ty)
        if ct is None:
            NM.adopt(fr, nl, saved_loc)
        if closure is not None:
            nl['$closure'] = closure
        gen = fi.is_generator
        st.loc, st.frame = nl, fr
        if gen:
            nl['$gen'] = ex.new_list(st, [])
            nl['$gen'].lit = None
        out = []
        for kind, s, v in ex.block(fi.node.body, st):
            g = s.loc.get('$gen')
            s.loc = dict(saved_loc)
            s.frame = saved_frame
            s.exc = saved_exc
            if kind == 'exc':
                X.append((s, v))
            elif gen:
                out.append((s, E.SV(g.t, g.ty)))
            elif kind == 'ret':
                out.append((s, v))
            elif kind == 'next':
                out.append((s, ex.const(None)))
            else:
                raise Unsupported('outcome %s' % kind)
        return out
    finally:
        ex.inline_stack.pop()


# ------------------------------------------------------------------ contracts
def term(v):
    return v


def region(f, c):
    f = getattr(f, '__func__', f)
    return lambda r: f(c, r)


def call_fn(f, *a):
    f = getattr(f, '__func__', f)
    return f(*a)


def havoc_for_call(ex, st, ct, c):
    """New heap after a call: modified regions and fresh objects."""
    alloc0 = st.alloc
    if ct.allocs:
        al = M.fconst('alloc', M.I)
        st.assume(al >= alloc0)
        st.alloc = al
    comps = list(ct.modifies)
    if 'tr' in comps and 'trn' not in comps:
        comps.append('trn')
    newc = []
    for comp in comps:
        old = st.h.get(comp)
        if old is None:
            raise Unsupported('undeclared component %s' % comp)
        new = M.fconst(comp, M.comp_sort(comp))
        st.h[comp] = new
        newc.append(comp)
        if comp == 'tr':
            n0 = c.pre.comp('trn')
            ex.given(st, 'trace', M.forall(1, lambda i: M.Imp(i < n0, z3.Select(new, i) == z3.Select(old, i)),
                                           lambda i: [z3.Select(new, i)], [M.I]))
            ex.touch('tr', n0)
            continue
        if comp == 'trn':
            ex.given(st, 'trace', new >= old)
            ex.touch('trn', old)
            continue
        if comp.startswith('g.'):
            ex.touch(comp, z3.IntVal(0))
            continue
        f = ct.modifies[comp]
        if f is None:
            ex.touch(comp, lambda r: M.And())
            continue
        reg = region(f, c)
        ex.touch(comp, reg)
        ex.given(st, 'frame', M.forall(1, lambda r: M.Imp(
            M.And(r < alloc0, M.Not(reg(r))), z3.Select(new, r) == z3.Select(old, r)),
            lambda r: [z3.Select(new, r)], [M.I]))
    ex.wf(st, newc)
    if ct.allocs:
        base = ['dm', 'le', 'll', 'par'] + [k for k in st.h if k.startswith('f.')]
        ex.wf_new(st, [b for b in base if b not in newc], alloc0)


def apply_contract(ex, ct, args, st, X, params=None):
    params = params if params is not None else ct.params
    ex.callees.add(ct.key)
    short = ct.key.split(':')[-1]
    terms = {}
    for p, v in zip(params, args):
        v = ex.sv(st, v)
        terms[p] = v.t
    pre = snapshot(st)
    c = E.Ctx(pre=pre, h=pre, a=Args(terms), M=M, alloc0=st.alloc, ex=ex,
              g=st.frame.pre.ghost, exc=None)
    for p, v in zip(params, args):
        t = ct.types.get(p)
        if t is None:
            continue
        pty = T.parse(t)
        if trivially(v, pty):
            continue
        ex.oblige(st, 'call %s: type of %s' % (short, p), T.typed(st.H, terms[p], pty), 'pre')
    for l, b in call_fn(ct.requires, c):
        ex.oblige(st, 'call %s: requires %s' % (short, l), b, 'pre')
        st.assume(b)
    # exceptional outcomes
    for name, cond in ct.raises.items():
        s = st.copy()
        b = None
        if cond is not None:
            b = call_fn(cond, c)
            if ex.refuted(s, b):
                continue
            s.assume(b)
        havoc_for_call(ex, s, ct, c)
        exc = E.ExcV(name, None, tuple(k for k in list(ct.raises)[:list(ct.raises).index(name)]))
        exc.sv = ex.new_exc(s, name)
        c2 = E.Ctx(pre=pre, post=s.H, h=s.H, a=c.a, M=M, alloc0=c.alloc0, ex=ex, g=c.g,
                   exc=exc.sv.t)
        for l, b in call_fn(ct.ens_exc, c2, name):
            s.assume(b)
        note_call(s, short, c2)
        X.append((s, exc))
    if getattr(ct, 'noreturn', False):
        return []
    # normal outcome
    havoc_for_call(ex, st, ct, c)
    rty = T.parse(ct.result)
    if rty == ('none',):
        res = M.NONE
    elif rty == ('bool',):
        res = M.V.bool(M.fconst('res', z3.BoolSort()))
    elif rty == ('str',):
        res = M.V.str(M.fconst('res', M.S))
    elif rty == ('int',):
        res = M.V.int(M.fconst('res', M.I))
    else:
        res = M.fconst('res', M.V)
        st.assume(res != M.ABSENT)
        st.assume(T.typed(st.H, res, rty))
    c2 = E.Ctx(pre=pre, post=st.H, h=st.H, a=c.a, M=M, alloc0=c.alloc0, ex=ex, g=c.g, res=res)
    for l, b, _u in map(E.item, call_fn(ct.ensures, c2)):
        ex.given(st, 'post:%s:%s' % (short, l), b)
    note_call(st, short, c2)
    if ex.refuted(st, z3.BoolVal(True)):
        ex.notes.append('normal return of %s is infeasible' % ct.key)
        return []
    return [(st, E.SV(res, rty))]


def note_call(st, name, c):
    st.calls = dict(st.calls)
    st.calls[name] = st.calls.get(name, ()) + (E.Ctx(**dict(c.__dict__, post=snapshot(st))),)


def trivially(v, ty):
    """Hint of the value already gives the (shallow) type."""
    if ty == ANY and v.ty != ANY:
        return True
    if v.ty == ty and ty[0] in ('str', 'bool', 'int', 'none', 'fun'):
        return True
    if ty[0] == 'opt' and (v.ty == ('none',) or (v.ty == ty[1] and trivially(v, ty[1]))):
        return True
    return False
