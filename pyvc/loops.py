"""Loops and comprehensions: cut points with author invariants."""
import ast

import z3

from . import model as M
from . import types as T
from . import exec as E
from . import names as NM
from .front import walk_own

ANY = ('any',)
Unsupported = M.Unsupported


def consts_of(t, seen=None, out=None):
    """All uninterpreted constants of a term."""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.decl().name()] = x
            todo.extend(x.children())
    return out


def stamp(name):
    i = name.rfind('!')
    if i < 0:
        return -1
    try:
        return int(name[i + 1:])
    except ValueError:
        return -1


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def body_assigned(nodes):
    out = []
    todo = list(nodes)
    while todo:
        n = todo.pop(0)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            if n.name not in out:
                out.append(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own scope
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                nm = (a.asname or a.name).split('.')[0]
                if nm not in out:
                    out.append(nm)
        todo.extend(ast.iter_child_nodes(n))
    return out


class Iter(object):
    """Normalised iterable: kind 'static' | 'list' | 'map'."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def normalise(ex, v, st, X):
    """-> [(st, Iter)]"""
    if isinstance(v, E.StaticSeq):
        return [(st, Iter('static', items=v.items))]
    if isinstance(v, E.ZipV):
        return zip_iter(ex, v, st, X)
    if isinstance(v, E.ViewV):
        m = v.m if v.m is not None else st.H.dmap(v.d.t)
        return [(st, Iter('map', m=m, d=v.d if v.m is None else None, view=v.kind,
                          hints=ex.dict_hints(v.d)))]
    if isinstance(v, E.SeqV):
        it = normalise(ex, v.lst, st, X)
        for _, i in it:
            if i.kind == 'list':
                i.rev = v.rev != i.rev
            elif i.kind == 'static' and v.rev:
                i.items = list(reversed(i.items))
            elif v.rev:
                raise Unsupported('reversed view')
        return it
    if not isinstance(v, E.SV):
        raise Unsupported('iteration over %r' % (v,))
    ty = v.ty
    if v.snap is not None:
        return normalise(ex, v.snap, st, X)
    if v.lit is not None and ty[0] == 'tuple':
        return [(st, Iter('static', items=v.lit))]
    if ty[0] == 'tuple':
        n = len(ty[1])
        return [(st, Iter('static', items=[E.SV(M.tup_at(v.t, n, i), ty[1][i])
                                           for i in range(n)]))]
    if v.lit is not None and ty[0] == 'list' and len(v.lit) <= 8:
        return [(st, Iter('static', items=v.lit))]
    if ty[0] == 'opt':
        t, f = ex.branch(st, v.t != M.NONE)
        if f is not None:
            ex.raise_(f, 'TypeError', X)
        return normalise(ex, E.SV(v.t, ty[1]), t, X) if t is not None else []
    if ty[0] == 'list':
        return [(st, Iter('list', lst=v, rev=False, et=ty[1]))]
    if ty[0] in ('dict', 'set') or (ty[0] == 'obj' and ty[1] in T.DICT_CLASSES):
        return [(st, Iter('map', m=st.H.dmap(v.t), d=v, view='keys', hints=ex.dict_hints(v)))]
    if ty[0] == 'any':
        out = []
        t, f = ex.branch(st, st.H.islist(v.t))
        if t is not None:
            out.extend(normalise(ex, E.SV(v.t, ('list', ANY)), t, X))
        if f is not None:
            t, f = ex.branch(f, M.Or(f.H.isdict(v.t), f.H.isset(v.t)))
            if t is not None:
                out.extend(normalise(ex, E.SV(v.t, ('dict', ANY, ANY)), t, X))
        if f is not None:
            istup = M.Or(*[M.tup_is(v.t, k) for k in range(5)])
            other, f = ex.branch(f, M.Or(istup, M.V.is_str(v.t), M.V.is_op(v.t), M.V.is_fun(v.t),
                                         M.V.is_ref(v.t)))
            if other is not None:
                t, other = ex.branch(other, M.V.is_str(v.t))
                if t is not None:
                    out.append((t, str_iter(ex, v, t)))
                if other is not None:
                    out.append((other, opaque_iter(ex, v, other)))
            if f is not None:
                ex.raise_(f, 'TypeError', X)
        return out
    if ty[0] == 'str':
        return [(st, str_iter(ex, v, st))]
    if ty[0] in ('none', 'bool', 'int', 'fun'):
        ex.raise_(st, 'TypeError', X)
        return []
    raise Unsupported('iteration over %s' % (ty,))


def zip_iter(ex, v, st, X):
    """Pairs of two lists: a new list, the zipped lists may not change in the loop."""
    out = []
    for s, a in normalise(ex, v.a, st, X):
        for y, b in normalise(ex, v.b, s, X):
            if a.kind != 'list' or b.kind != 'list' or a.rev or b.rev:
                raise Unsupported('zip of %s, %s' % (a.kind, b.kind))
            H = y.H
            la, lb = H.llen(a.lst.t), H.llen(b.lst.t)
            sa, sb = H.lseq(a.lst.t), H.lseq(b.lst.t)
            et = ('tuple', (a.et, b.et))
            o = E.SV(ex.alloc(y, 'list'), ('list', et))
            n = M.fconst('n', M.I)
            seq = M.fconst('pairs', M.SeqS)
            y.assume(n == z3.If(la <= lb, la, lb))
            y.assume(M.forall(1, lambda j: z3.Select(seq, j) == M.V.t2(z3.Select(sa, j), z3.Select(sb, j)),
                              lambda j: [z3.Select(seq, j)], [M.I]))
            ex.set_list(y, o.t, n, seq)
            out.append((y, Iter('list', lst=o, rev=False, et=et, also=[a.lst.t, b.lst.t])))
    return out


def str_iter(ex, v, st):
    """Characters of a string: an abstract list of strings."""
    o = E.SV(ex.alloc(st, 'list'), ('list', ('str',)))
    n = M.fconst('n', M.I)
    seq = M.fconst('chars', M.SeqS)
    st.assume(n >= 0)
    st.assume(M.forall(1, lambda j: M.V.is_str(z3.Select(seq, j)),
                       lambda j: [z3.Select(seq, j)], [M.I]))
    st.assume((n == 0) == (v.t == M.vstr('')))
    ex.set_list(st, o.t, n, seq)
    return Iter('list', lst=o, rev=False, et=('str',))


def opaque_iter(ex, v, st):
    """Elements of a value of unknown iterable type: arbitrary live values."""
    o = E.SV(ex.alloc(st, 'list'), ('list', ANY))
    n = M.fconst('n', M.I)
    seq = M.fconst('elems', M.SeqS)
    st.assume(n >= 0)
    al = st.alloc
    st.assume(M.forall(1, lambda j: M.And(
        z3.Select(seq, j) != M.ABSENT,
        M.Imp(M.V.is_ref(z3.Select(seq, j)),
              M.And(M.V.r(z3.Select(seq, j)) >= 0, M.V.r(z3.Select(seq, j)) < al - 1))),
        lambda j: [z3.Select(seq, j)], [M.I]))
    ex.set_list(st, o.t, n, seq)
    return Iter('list', lst=o, rev=False, et=ANY)


def for_loop(ex, s, st):
    X = []
    out = []
    fr = st.frame
    ordinal = fr.loops.get(id(s), -1)
    for x, v in ex.ev(s.iter, st, X):
        for y, it in normalise(ex, v, x, X):
            def body(z):
                return ex.block(s.body, z)
            names = body_assigned([s.target] + s.body)
            for k, z, w in run(ex, y, it, s.target, body, names, ordinal, s):
                if k == 'next' and s.orelse:
                    out.extend(ex.block(s.orelse, z))
                elif k == 'brk':
                    out.append(('next', z, w))
                else:
                    out.append((k, z, w))
    return out + [('exc', a, b) for a, b in X]


def bind_target(ex, st, target, v, X):
    if target is None:
        return [st]
    return ex.assign(target, v, st, X)


def run(ex, st, it, target, body, names, ordinal, node):
    """Outcomes of a loop: ('next'|'brk'|'ret'|'exc', state, value)."""
    if it.kind == 'static':
        live = [st]
        out = []
        for item in it.items:
            nxt = []
            for x in live:
                X = []
                for y in bind_target(ex, x, target, item, X):
                    for k, z, v in body(y):
                        if k in ('next', 'cnt'):
                            nxt.append(z)
                        else:
                            out.append((k, z, v))
                out.extend(('exc', a, b) for a, b in X)
            live = nxt
        return out + [('next', x, None) for x in live]
    return cut(ex, st, it, target, body, names, ordinal, node)


def aliased(fi, n):
    return n if n in [b[0] for b in NM.bindings(fi.node)] else NM.alias(fi, n) or n


def loop_ctx(ex, st, frame, entry, **kw):
    pre = frame.pre

    def local(loc):
        def f(name):
            at, name = NM.find(frame, loc, name)
            v = at.get(name)
            if v is None:
                clo = loc.get('$closure')
                if clo is not None and name in clo:
                    v = clo[name]
            if isinstance(v, E.Maybe):
                v = v.sv
            if v is None:
                raise Unsupported('invariant refers to missing local %s' % name)
            if isinstance(v, E.SV):
                return v.t
            if isinstance(v, E.StaticSeq):
                return ex.sv(st, v).t
            raise Unsupported('invariant refers to local %s' % name)
        return f

    def maybe(name):
        """(is bound, value) of a local that may be unbound"""
        at, name = NM.find(frame, st.loc, name)
        v = at.get(name)
        if v is None:
            return z3.BoolVal(False), M.fconst('unbound', M.V)
        if isinstance(v, E.Maybe):
            return v.bound, v.sv.t
        return z3.BoolVal(True), local(at)(name)
    c = E.Ctx(pre=pre.pre_heap, a=pre.args, entry=entry.H, h=st.H, M=M, maybe=maybe,
              l=local(st.loc), l0=local(entry.loc), st=st, ex=ex,
              gen=(lambda: st.loc['$gen'].t), gen0=(lambda: entry.loc['$gen'].t),
              alloc0=entry.alloc, g=pre.ghost, **kw)
    c.post = c.h
    return c


def invariants(frame, ordinal, c):
    ct = frame.contract
    if ct is None or ordinal not in ct.loops:
        return []
    f = ct.loops[ordinal]
    f = getattr(f, '__func__', f)
    return [E.item(x) for x in f(c)]


def loop_regions(ex, frame, ordinal, entry, start, log):
    """Map comp -> predicate on ref: pre-existing refs that may change."""
    ct = frame.contract
    explicit = ct.loopmod.get(ordinal, {}) if ct is not None else {}
    out = {}
    c = loop_ctx(ex, entry, frame, entry)
    c.h = entry.H
    for comp, items in log.items():
        if comp in explicit:
            f = explicit[comp]
            out[comp] = (lambda f: lambda r: f(c, r))(f)
            continue
        refs = []
        regions = []
        default = False
        for it in items:
            if callable(it):
                regions.append(it)
                continue
            cs = [stamp(n) for n in consts_of(it)]
            if all(k <= start for k in cs):
                refs.append(it)
                continue
            names_ = [n for n in consts_of(it) if stamp(n) > start]
            if all(n.startswith('alloc!') for n in names_) and \
                    all(n in names_ for n in consts_of(it)):
                continue      # allocated in the loop body (checked by the frame)
            default = True
        reg = ex.func_region(comp) if default else None

        def pred(r, refs=refs, regions=regions, default=default, reg=reg):
            ps = [r == x for x in refs]
            if default:
                ps.append(r >= frame.pre.pre_heap.alloc)
                if reg is not None:
                    ps.append(reg(r))
            return M.Or(*ps)
        if regions:
            # regions of called contracts mentioning loop variables: default
            good = []
            r0 = z3.Int('probe')
            bad = False
            for g in regions:
                p = g(r0)
                ks = [stamp(n) for n in consts_of(p)]
                if all(k <= start for k in ks):
                    good.append(g)
                else:
                    bad = True
            reg2 = ex.func_region(comp) if bad else None

            def pred2(r, good=good, bad=bad, reg2=reg2, pred=pred):
                ps = [pred(r)] + [g(r) for g in good]
                if bad:
                    ps.append(r >= frame.pre.pre_heap.alloc)
                    if reg2 is not None:
                        ps.append(reg2(r))
                return M.Or(*ps)
            out[comp] = pred2
        else:
            out[comp] = pred
    return out


def imprecise(log, changed, start):
    for comp, items in log.items():
        if comp not in changed or comp in ('par', 'pk', 'tr', 'trn') or comp.startswith('g.'):
            continue
        for it in items:
            if callable(it):
                it = it(z3.Int('probe'))
            names = [n for n in consts_of(it) if stamp(n) > start]
            if any(not n.startswith('alloc!') for n in names):
                return True
    return False


def log_alloc(log):
    return log.alloc


class ModLog(dict):
    alloc = None


def havoc_heap(ex, st, entry, regions):
    """Replace changed components by fresh ones constrained by the frame."""
    al = M.fconst('alloc', M.I)
    st.assume(al >= entry.alloc)
    st.alloc = al
    for comp, reg in regions.items():
        havoc_comp(ex, st, comp, entry.h[comp], entry.alloc, reg)
    if 'trn' in regions:
        ex.given(st, 'trace', st.h['trn'] >= entry.h['trn'])
    if 'tr' in regions:        # the trace is only appended to
        n0, old, new = entry.h['trn'], entry.h['tr'], st.h['tr']
        ex.given(st, 'trace', M.forall(1, lambda i: M.Imp(i < n0, z3.Select(new, i) == z3.Select(old, i)),
                                       lambda i: [z3.Select(new, i)], [M.I]))
    ex.wf(st, list(regions) + ['dm', 'le'])


def havoc_comp(ex, st, comp, old, alloc, reg):
    new = M.fconst(comp, M.comp_sort(comp))
    st.h[comp] = new
    if comp in ('trn', 'tr') or comp.startswith('g.'):
        return
    if comp in ('par', 'pk'):
        # ownership is only taken of unowned objects newer than the function
        p = ex.par_for_frame
        a0 = ex.top.pre.pre_heap.alloc
        ex.given(st, 'frame', M.forall(1, lambda r: M.Imp(
            M.And(r < alloc, M.Or(r < a0, z3.Select(p, r) != -1)),
            z3.Select(new, r) == z3.Select(old, r)),
            lambda r: [z3.Select(new, r)], [M.I]))
        return
    ex.given(st, 'frame', M.forall(1, lambda r: M.Imp(
        M.And(r < alloc, M.Not(reg(r))), z3.Select(new, r) == z3.Select(old, r)),
        lambda r: [z3.Select(new, r)], [M.I]))


def frame_obligations(ex, st, label, comps, old_h, alloc, regions):
    for comp in comps:
        if comp in ('par', 'pk', 'tr', 'trn') or comp.startswith('g.'):
            continue
        new, old = st.h[comp], old_h[comp]
        if new.eq(old):
            continue
        r = M.fconst('fr', M.I)
        reg = regions.get(comp)
        guard = M.And(r >= 0, r < alloc, M.Not(reg(r)) if reg is not None else M.And())
        s2 = st.copy()
        s2.assume(guard)
        ex.oblige(s2, '%s:%s' % (label, comp), z3.Select(new, r) == z3.Select(old, r), 'frame')


def havoc_locals(ex, st, names, hints):
    for n in names:
        old = st.loc.get(n)
        ty = hints.get(n, ANY)
        if ty == 'drop':
            st.loc.pop(n, None)
            continue
        t = M.fconst('l_' + n, M.V)
        if ty[0] == 'int':
            t = M.V.int(M.fconst('l_' + n, M.I))
        elif ty[0] == 'bool':
            t = M.V.bool(M.fconst('l_' + n, z3.BoolSort()))
        elif ty[0] == 'str':
            t = M.V.str(M.fconst('l_' + n, M.S))
        else:
            st.assume(t != M.ABSENT)
            st.assume(M.Imp(M.V.is_ref(t), M.And(M.V.r(t) >= 0, M.V.r(t) < st.alloc)))
            st.assume(E.kindfact(st, t, ty))
        sv = E.SV(t, ty)
        if old is None:
            st.loc[n] = E.Maybe(M.fconst('b_' + n, z3.BoolSort()), sv)
        elif isinstance(old, E.Maybe):
            st.loc[n] = E.Maybe(M.fconst('b_' + n, z3.BoolSort()), sv)
        else:
            st.loc[n] = sv


def join_ty(a, b):
    if a == b:
        return a
    if a == ('empty',):
        return b
    if b == ('empty',):
        return a
    if a == ANY or b == ANY:
        return ANY
    if a[0] == 'none' and b[0] != 'opt':
        return ('opt', b)
    if b[0] == 'none' and a[0] != 'opt':
        return ('opt', a)
    if a[0] == 'opt' and (b[0] == 'none' or a[1] == b):
        return a
    if b[0] == 'opt' and (a[0] == 'none' or b[1] == a):
        return b
    if a[0] == b[0] == 'list':
        return ('list', join_elem(a[1], b[1]))
    if a[0] == b[0] == 'dict':
        return ('dict', join_elem(a[1], b[1]), join_elem(a[2], b[2]))
    return ANY


def join_elem(a, b):
    return join_ty(a, b)


def iteration_value(ex, st, it, k):
    """Value bound to the loop target; k: index or key term."""
    if it.kind == 'list':
        H = st.H
        n = H.llen(it.lst.t)
        i = n - 1 - k if it.rev else k
        return ex.hinted(st, H.at(it.lst.t, i), it.et)
    kt, vt = it.hints
    val = st.H.get(it.d.t, k) if it.d is not None else z3.Select(it.m, k)
    st.assume(val != M.ABSENT)
    st.assume(ex.hashable(st, E.SV(k)))
    if it.view == 'keys':
        return ex.hinted(st, k, kt)
    if it.view == 'values':
        return ex.hinted(st, val, vt)
    a, b = ex.hinted(st, k, kt), ex.hinted(st, val, vt)
    return E.SV(M.V.t2(k, val), ('tuple', (a.ty, b.ty)), lit=[a, b])


def cut(ex, st, it, target, body, names, ordinal, node):
    frame = st.frame
    entry = st.copy()
    if frame is ex.top or getattr(frame, 'adopted', None) is ex.top:
        entry.marks = dict(entry.marks)
        entry.marks[ordinal] = entry.H
    ismap = it.kind == 'map'
    fname = frame.fi.qual
    lab = 'loop%d' % ordinal
    ct_types = {}
    if frame.contract is not None:
        ct_types = {aliased(frame.fi, n): t for n, t in getattr(frame.contract, 'loop_types', {}).get(ordinal, {}).items()}

    if not ismap:
        # a name for the sequence, so that quantifiers match its elements
        eseq = M.fconst('seq', M.SeqS)
        entry.assume(eseq == entry.H.lseq(it.lst.t))
        # a list of the heap before the call, unchanged since
        for a, b in ((entry.H.lseq(it.lst.t), frame.pre.pre_heap.lseq(it.lst.t)),
                     (entry.H.llen(it.lst.t), frame.pre.pre_heap.llen(it.lst.t))):
            if not a.eq(b) and ex.refuted(entry, a != b):
                entry.assume(a == b)

    def iter_ctx(s, pos):
        if ismap:
            return loop_ctx(ex, s, frame, entry, m0=it.m, donearr=pos,
                            done=lambda q: z3.Select(pos, q),
                            dom=lambda q: z3.Select(it.m, q) != M.ABSENT)
        return loop_ctx(ex, s, frame, entry, idx=pos, n=entry.H.llen(it.lst.t),
                        src=it.lst.t, seq=eseq,
                        elem=lambda j: z3.Select(
                            eseq,
                            (entry.H.llen(it.lst.t) - 1 - j) if it.rev else j))

    # --- initially
    start_pos = z3.K(M.V, z3.BoolVal(False)) if ismap else z3.IntVal(0)
    c0 = iter_ctx(entry, start_pos)
    chain = frame.contract is not None and getattr(frame.contract, 'chain', False)   # use what was proved of the invariant for the rest
    e0 = entry.copy() if chain else entry
    for l, b, _u in invariants(frame, ordinal, c0):
        ex.oblige(e0, '%s:%s:init:%s' % (fname, lab, l), b, 'inv')
        if chain:
            ex.given(e0, 'assert:%s' % l, b)

    def setup(base, regions, hints):
        s = base.copy()
        if regions is not None:
            ex.par_for_frame = base.h['par']
            havoc_heap(ex, s, base, regions)
        else:
            # first dry run: everything is unknown, no frame
            s.alloc = M.fconst('alloc', M.I)
            s.assume(s.alloc >= base.alloc)
        havoc_locals(ex, s, names, hints)
        return s

    def arbitrary(s):
        """Assume the invariant at an arbitrary iteration."""
        if ismap:
            pos = M.fconst('done', z3.ArraySort(M.V, z3.BoolSort()))
            k = M.fconst('k', M.V)
            s.assume(z3.Select(it.m, k) != M.ABSENT, z3.Not(z3.Select(pos, k)))
            s.assume(k != M.ABSENT)
            s.assume(M.Imp(M.V.is_ref(k), M.And(M.V.r(k) >= 0, M.V.r(k) < entry.alloc)))
            s.assume(M.forall(1, lambda q: M.Imp(z3.Select(pos, q), z3.Select(it.m, q) != M.ABSENT),
                              lambda q: [z3.Select(pos, q)]))
            if it.d is not None and not s.H.dmap(it.d.t).eq(it.m):
                cur = s.H.dmap(it.d.t)
                s.assume(same_dom(cur, it.m))
            nxt = z3.Store(pos, k, z3.BoolVal(True))
        else:
            pos = M.fconst('idx', M.I)
            k = pos
            n = entry.H.llen(it.lst.t)
            s.assume(pos >= 0, pos < n)
            keep_list(s)
            s.loc['$loop%d' % ordinal] = ex.isv(pos)      # for invariants of inner loops
            nxt = pos + 1
        for l, b, _u in invariants(frame, ordinal, iter_ctx(s, pos)):
            ex.given(s, '%s:inv:%s' % (lab, l), b)
        return pos, k, nxt

    def keep_list(s):
        H = s.H
        if not H.llen(it.lst.t).eq(entry.H.llen(it.lst.t)):
            s.assume(H.llen(it.lst.t) == entry.H.llen(it.lst.t))
        if not H.lseq(it.lst.t).eq(entry.H.lseq(it.lst.t)):
            s.assume(H.lseq(it.lst.t) == entry.H.lseq(it.lst.t))

    def same_dom(a, b):
        return M.forall(1, lambda q: (z3.Select(a, q) != M.ABSENT) == (z3.Select(b, q) != M.ABSENT),
                        lambda q: [z3.Select(a, q), z3.Select(b, q)])

    def iterate(s):
        pos, k, nxt = arbitrary(s)
        X = []
        v = iteration_value(ex, s, it, k)
        hint_elem(ex, s, v)
        outs = []
        for y in bind_target(ex, s, target, v, X):
            outs.extend(body(y))
        outs.extend(('exc', a, b) for a, b in X)
        return pos, k, nxt, outs

    # --- dry runs: changed components and hints of locals
    ex.record += 1
    hints = {n: 'drop' if n not in entry.loc else hint_of(entry.loc[n]) for n in names}
    for n, t in ct_types.items():
        hints[n] = T.parse(t)
    only = None
    for _round in range(6):
        base = entry.copy()
        start = M._fresh[0]
        s = base.copy()
        # no frame in the dry run: fresh components
        s.alloc = M.fconst('alloc', M.I)
        s.assume(s.alloc >= base.alloc)
        mark_alloc = s.alloc
        for comp in list(s.h):
            if only is None or comp in only:
                s.h[comp] = M.fconst(comp, M.comp_sort(comp))
        ex.wf(s, ['dm', 'le'])
        havoc_locals(ex, s, names, hints)
        h0 = dict(s.h)
        saved_log = ex.modlog
        ex.modlog = ModLog()
        ex.modlog.alloc = mark_alloc
        saved_steps = ex.steps
        try:
            _p, _k, _n, outs = iterate(s)
        finally:
            log = ex.modlog
            ex.modlog = saved_log
        new_hints = dict(hints)
        for kind, y, _v in outs:
            if kind not in ('next', 'cnt'):
                continue
            for n in names:
                if n in ct_types:
                    continue
                a = hints.get(n)
                v = y.loc.get(n)
                b = 'drop' if v is None else hint_of(v)
                if b == 'drop':
                    continue
                cur = new_hints.get(n, 'drop')
                new_hints[n] = b if cur == 'drop' else join_ty(cur, b)
        changed = set()
        for kind, y, _v in outs:
            for comp in y.h:
                if comp in h0 and not y.h[comp].eq(h0[comp]):
                    changed.add(comp)
                elif comp not in h0:
                    changed.add(comp)
        stable = new_hints == hints
        hints = new_hints
        if stable and only is not None and not changed <= only:
            only = None
        elif stable and (only is not None or not imprecise(log, changed, start)):
            break
        elif stable:
            # once more, with what stays unchanged kept
            only = changed
    ex.record -= 1
    for comp in changed:
        log.setdefault(comp, [])
    # fresh terms of the dry run mention consts newer than `start`
    full = ModLog((k, v) for k, v in log.items() if k in changed)
    full.alloc = mark_alloc
    regions = loop_regions(ex, frame, ordinal, entry, start, full)
    for comp, rs in full.items():
        ex.modlog_add_all(comp, rs, start)

    out = []
    # --- arbitrary iteration
    s = setup(entry, regions, hints)
    h_start = dict(s.h)
    pos, k, nxt, outs = iterate(s)
    reached = False
    for kind, y, v in outs:
        reached = True
        if kind in ('next', 'cnt'):
            cy = iter_ctx(y, nxt)
            y0 = y
            hf = getattr(frame.contract, 'loophints', {}).get(ordinal)
            if hf is not None:
                # intermediate assertions: proved, then used
                y0 = y.copy()
                cy.hs, cy.k = M.Heap(dict(h_start), None), k
                for l, b, u in map(E.item, getattr(hf, '__func__', hf)(cy)):
                    ex.oblige(y0, '%s:%s:assert:%s' % (fname, lab, l), b, 'inv', u)
                    ex.given(y0, 'assert:%s' % l, b)
            for l, b, u in invariants(frame, ordinal, cy):
                ex.oblige(y0, '%s:%s:keep:%s' % (fname, lab, l), b, 'inv', u)
            for comp in y.h:
                if comp not in regions and comp in h_start and not y.h[comp].eq(h_start[comp]):
                    raise Unsupported('%s changes in %s:%s unexpectedly' % (comp, fname, lab))
            frame_obligations(ex, y, '%s:%s:frame' % (fname, lab), list(regions), h_start,
                              entry.alloc, regions)
            if ismap and it.d is not None:
                cur = y.H.dmap(it.d.t)
                if not cur.eq(it.m):
                    q = M.fconst('q', M.V)
                    ex.oblige(y, '%s:%s:domain unchanged' % (fname, lab),
                              (z3.Select(cur, q) != M.ABSENT) == (z3.Select(it.m, q) != M.ABSENT), 'inv')
            if not ismap:
                if not y.H.llen(it.lst.t).eq(s.H.llen(it.lst.t)) or 'll' in regions:
                    ex.oblige(y, '%s:%s:list unchanged' % (fname, lab),
                              M.And(y.H.llen(it.lst.t) == entry.H.llen(it.lst.t),
                                    y.H.lseq(it.lst.t) == entry.H.lseq(it.lst.t)), 'inv')
                for x in getattr(it, 'also', ()):
                    if not (y.H.llen(x).eq(entry.H.llen(x)) and y.H.lseq(x).eq(entry.H.lseq(x))):
                        ex.oblige(y, '%s:%s:zipped list unchanged' % (fname, lab), z3.And(
                            y.H.llen(x) == entry.H.llen(x), y.H.lseq(x) == entry.H.lseq(x)), 'inv')
            for n, t in ct_types.items():
                vv = y.loc.get(n)
                if isinstance(vv, E.SV):
                    ex.oblige(y, '%s:%s:type %s' % (fname, lab, n), T.typed(y.H, vv.t, T.parse(t)), 'inv')
        else:
            out.append((kind, y, v))
    if not reached and not ex.record:
        ex.notes.append('loop %s:%d body not reached' % (fname, ordinal))

    # --- exit
    s = setup(entry, regions, hints)
    if ismap:
        pos = M.fconst('done', z3.ArraySort(M.V, z3.BoolSort()))
        s.assume(M.forall(1, lambda q: z3.Select(pos, q) == (z3.Select(it.m, q) != M.ABSENT),
                          lambda q: [z3.Select(pos, q), z3.Select(it.m, q)]))
        if it.d is not None and not s.H.dmap(it.d.t).eq(it.m):
            s.assume(same_dom(s.H.dmap(it.d.t), it.m))
    else:
        n = entry.H.llen(it.lst.t)
        pos = n
        s.assume(n >= 0)
        keep_list(s)
    for l, b, _u in invariants(frame, ordinal, iter_ctx(s, pos)):
        ex.given(s, '%s:inv:%s' % (lab, l), b)
    out.append(('next', s, None))
    return out


def hint_of(v):
    if isinstance(v, E.Maybe):
        v = v.sv
    if isinstance(v, E.SV):
        if v.ty[0] == 'list' and v.lit is not None and not v.lit:
            return ('list', ('empty',))
        return v.ty
    return ANY


def hint_elem(ex, st, v):
    """Elements read from containers are real values."""
    if isinstance(v, E.SV):
        st.assume(v.t != M.ABSENT) if v.lit is None else None
        if v.lit is not None:
            for x in v.lit:
                st.assume(x.t != M.ABSENT)


def while_loop(ex, s, st):
    frame = st.frame
    ordinal = frame.loops.get(id(s), -1)
    names = body_assigned(s.body)
    fname = frame.fi.qual
    lab = 'loop%d' % ordinal
    entry = st.copy()
    for l, b, _u in invariants(frame, ordinal, loop_ctx(ex, entry, frame, entry)):
        ex.oblige(entry, '%s:%s:init:%s' % (fname, lab, l), b, 'inv')
    ct_types = {}
    if frame.contract is not None:
        ct_types = {aliased(frame.fi, n): t for n, t in getattr(frame.contract, 'loop_types', {}).get(ordinal, {}).items()}

    def iterate(x):
        for l, b, _u in invariants(frame, ordinal, loop_ctx(ex, x, frame, entry)):
            x.assume(b)
        X = []
        outs = []
        exits = []
        for y, cnd in ex.ev_cond(s.test, x, X):
            t, f = ex.branch(y, cnd)
            if t is not None:
                ex.refine(s.test, t, True)
                outs.extend(ex.block(s.body, t))
            if f is not None:
                ex.refine(s.test, f, False)
                exits.append(f)
        outs.extend(('exc', a, b) for a, b in X)
        return outs, exits

    ex.record += 1
    hints = {n: 'drop' if n not in entry.loc else hint_of(entry.loc[n]) for n in names}
    for n, t in ct_types.items():
        hints[n] = T.parse(t)
    only = None
    for _round in range(6):
        start = M._fresh[0]
        x = entry.copy()
        x.alloc = M.fconst('alloc', M.I)
        x.assume(x.alloc >= entry.alloc)
        for comp in list(x.h):
            if only is None or comp in only:
                x.h[comp] = M.fconst(comp, M.comp_sort(comp))
        ex.wf(x, ['dm', 'le'])
        havoc_locals(ex, x, names, hints)
        h0 = dict(x.h)
        saved = ex.modlog
        ex.modlog = ModLog()
        ex.modlog.alloc = x.alloc
        try:
            outs, _e = iterate(x)
        finally:
            log = ex.modlog
            ex.modlog = saved
        new_hints = dict(hints)
        changed = set()
        for kind, y, _v in outs:
            for comp in y.h:
                if comp in h0 and not y.h[comp].eq(h0[comp]):
                    changed.add(comp)
            if kind not in ('next', 'cnt'):
                continue
            for n in names:
                if n in ct_types:
                    continue
                v = y.loc.get(n)
                if v is None:
                    continue
                cur = new_hints.get(n, 'drop')
                new_hints[n] = hint_of(v) if cur == 'drop' else join_ty(cur, hint_of(v))
        stable = new_hints == hints
        hints = new_hints
        if stable and only is not None and not changed <= only:
            only = None
        elif stable and (only is not None or not imprecise(log, changed, start)):
            break
        elif stable:
            only = changed
    ex.record -= 1
    for comp in changed:
        log.setdefault(comp, [])
    full = ModLog((k, v) for k, v in log.items() if k in changed)
    full.alloc = log.alloc
    regions = loop_regions(ex, frame, ordinal, entry, start, full)
    for comp, rs in full.items():
        ex.modlog_add_all(comp, rs, start)
    x = entry.copy()
    ex.par_for_frame = entry.h['par']
    havoc_heap(ex, x, entry, regions)
    havoc_locals(ex, x, names, hints)
    h_start = dict(x.h)
    outs, exits = iterate(x)
    out = []
    for kind, y, v in outs:
        if kind in ('next', 'cnt'):
            for l, b, _u in invariants(frame, ordinal, loop_ctx(ex, y, frame, entry)):
                ex.oblige(y, '%s:%s:keep:%s' % (fname, lab, l), b, 'inv')
            for comp in y.h:
                if comp not in regions and comp in h_start and not y.h[comp].eq(h_start[comp]):
                    raise Unsupported('%s changes in %s:%s unexpectedly' % (comp, fname, lab))
            frame_obligations(ex, y, '%s:%s:frame' % (fname, lab), list(regions), h_start,
                              entry.alloc, regions)
            dec = getattr(frame.contract, 'decreases', {}) if frame.contract else {}
            if ordinal in dec:
                f = dec[ordinal]
                c0 = loop_ctx(ex, x, frame, entry)
                c1 = loop_ctx(ex, y, frame, entry)
                # measure at the start of the iteration uses the havocked locals
                a, b = f(iter_start(c0, x, ex, frame, entry)), f(c1)
                ex.oblige(y, '%s:%s:decreases' % (fname, lab), M.And(b < a, a >= 0), 'inv')
        elif kind == 'brk':
            out.append(('next', y, None))
        else:
            out.append((kind, y, v))
    for y in exits:
        if s.orelse:
            out.extend(ex.block(s.orelse, y))
        else:
            out.append(('next', y, None))
    return out


def iter_start(c, x, ex, frame, entry):
    return c


# --------------------------------------------------------------- comprehensions
def comprehension(ex, e, st, X, kind):
    if len(e.generators) != 1:
        raise Unsupported('nested comprehension')
    g = e.generators[0]
    out = []
    ordinal = st.frame.loops.get(id(e), -1)
    for x, v in ex.ev(g.iter, st, X):
        for y, it in normalise(ex, v, x, X):
            r = None
            ct = st.frame.contract
            forced = ct is not None and ordinal in ct.loops
            if it.kind == 'static':
                out.extend(static_comp(ex, e, g, it, y, X, kind))
                continue
            if it.kind == 'map':
                # arbitrary order
                lst = ex.to_list(E.ViewV(it.view, E.SV(M.NONE, ('dict',) + tuple(it.hints)), it.m), y)
                it = Iter('list', lst=E.SV(lst.t, lst.ty), rev=False, et=lst.ty[1])
            if not forced:
                r = pure_comp(ex, e, g, it, y, X, kind)
            if r is None:
                r = loop_comp(ex, e, g, it, y, X, kind, ordinal)
            out.extend(r)
    return out


def static_comp(ex, e, g, it, st, X, kind):
    acc = [(st, [])]
    for item in it.items:
        nxt = []
        for s, vals in acc:
            save = dict(s.loc)
            for y in ex.assign(g.target, item, s, X):
                states = [y]
                skip = []
                for cond in g.ifs:
                    n2 = []
                    for z in states:
                        for w, c in ex.ev_cond(cond, z, X):
                            t, f = ex.branch(w, c)
                            if t is not None:
                                n2.append(t)
                            if f is not None:
                                skip.append(f)
                    states = n2
                for z in skip:
                    z.loc = dict(save)
                    nxt.append((z, vals))
                for z in states:
                    if kind == 'dict':
                        for w, (a, b) in ex.ev_seq([e.key, e.value], z, X):
                            w.loc = dict(save)
                            nxt.append((w, vals + [(a, b)]))
                    else:
                        for w, a in ex.ev(e.elt, z, X):
                            w.loc = dict(save)
                            nxt.append((w, vals + [a]))
        acc = nxt
    out = []
    for s, vals in acc:
        if kind == 'list':
            svs = [ex.sv(s, a) for a in vals]
            l = ex.new_list(s, svs)
            if svs:
                l.lit = svs
            out.append((s, l))
        elif kind == 'set':
            v = ex.alloc(s, 'set')
            m = M.EMPTY
            for a in vals:
                m = z3.Store(m, ex.sv(s, a).t, M.TRUE)
            ex.set_map(s, v, m)
            out.append((s, E.SV(v, ('set', ANY))))
        else:
            d = ex.new_dict(s)
            for a, b in vals:
                ex.dict_set(s, d.t, ex.sv(s, a).t, ex.sv(s, b).t)
            out.append((s, d))
    return out


def pure_comp(ex, e, g, it, st, X, kind):
    """Comprehension without heap effects: quantified description."""
    src = it.lst
    n = st.H.llen(src.t)
    j = M.fconst('j', M.I)
    start = M._fresh[0]
    s = st.copy()
    n0 = len(s.pc)
    s.assume(j >= 0, j < n)
    elem = st.H.at(src.t, (n - 1 - j) if it.rev else j)
    X2 = []
    ex.record += 1
    saved = ex.modlog
    from .loops import ModLog as ML
    ex.modlog = ML()
    ex.modlog.alloc = None
    try:
        cases = []      # (state, cond or None, value)
        for y in ex.assign(g.target, E.SV(elem, it.et), s, X2):
            y.assume(elem != M.ABSENT)
            states = [(y, [])]
            for cond in g.ifs:
                nx = []
                for z, cs in states:
                    # evaluate later conditions under the earlier ones
                    if cs:
                        t, f = ex.branch(z, M.And(*cs))
                        if f is not None:
                            cases.append((f, z3.BoolVal(False), None))
                        if t is None:
                            continue
                        z, cs = t, []
                    for w, c in ex.ev_cond(cond, z, X2):
                        nx.append((w, [c]))
                states = nx
            for z, cs in states:
                if cs:
                    t, f = ex.branch(z, M.And(*cs))
                    if f is not None:
                        cases.append((f, z3.BoolVal(False), None))
                    z = t
                if z is None:
                    continue
                if kind == 'dict':
                    for w, (a, b) in ex.ev_seq([e.key, e.value], z, X2):
                        cases.append((w, z3.BoolVal(True), (ex.sv(w, a), ex.sv(w, b))))
                else:
                    for w, a in ex.ev(e.elt, z, X2):
                        cases.append((w, z3.BoolVal(True), ex.sv(w, a)))
    except Unsupported:
        ex.record -= 1
        ex.modlog = saved
        raise
    ex.record -= 1
    ex.modlog = saved
    for w, _c, _v in cases:
        if not E.same_heap(w, st):
            return None
    for w, _x in X2:
        for comp in st.h:
            if comp not in ('par',) and not w.h[comp].eq(st.h[comp]):
                return None
    # skolemise constants created during the evaluation
    table = {}

    def skol(f, arg):
        subs = []
        for name, c in consts_of(f).items():
            if stamp(name) > start:
                if name not in table:
                    table[name] = z3.Function(M.fresh_name('sk_' + name.split('!')[0]), M.I, c.sort())
                subs.append((c, table[name](arg)))
        subs.append((j, arg))
        return z3.substitute(f, *subs)

    def guard(w):
        return M.And(*w.pc[n0:])
    keep = [(guard(w), v) for w, c, v in cases if z3.is_true(c)]
    drop = [guard(w) for w, c, v in cases if not z3.is_true(c)]
    # exceptional outcomes
    for w, exc in X2:
        s2 = st.copy()
        jj = M.fconst('j', M.I)
        s2.assume(skol(guard(w), jj))
        e2 = E.ExcV(exc.name, None, exc.open)
        e2.sv = ex.new_exc(s2, exc.name)
        X.append((s2, e2))
    hasif = bool(g.ifs)
    inrange = lambda k: M.And(k >= 0, k < n)
    srcat = lambda k: z3.Select(st.H.lseq(src.t), (n - 1 - k) if it.rev else k)
    s = st
    s.assume(n >= 0)
    # one of the non-exceptional cases happens for every element
    anycase = M.Or(*([g_ for g_, _ in keep] + drop))

    def ty_of(vs):
        ty = vs[0]
        for t in vs[1:]:
            ty = join_ty(ty, t)
        return ty

    def sel(vals):
        """ITE of the values of the keep cases as function of index."""
        def f(k):
            r = skol(vals[-1][1], k)
            for gd, v in reversed(vals[:-1]):
                r = z3.If(skol(gd, k), skol(v, k), r)
            return r
        return f
    if not keep:
        return [(s, ex.new_list(s, []))] if kind == 'list' else None
    if kind == 'list':
        val = sel([(gd, v.t) for gd, v in keep])
        ety = ty_of([v.ty for _, v in keep])
        o = E.SV(ex.alloc(s, 'list'), ('list', ety))
        res = M.fconst('res', M.SeqS)
        if not hasif:
            s.assume(M.forall(1, lambda k: M.Imp(inrange(k), M.And(
                skol(anycase, k), z3.Select(res, k) == val(k))),
                lambda k: [z3.Select(res, k), srcat(k)] if not it.rev else [z3.Select(res, k)], [M.I]))
            ex.set_list(s, o.t, n, res)
            return [(s, o)]
        m = M.fconst('m', M.I)
        f = z3.Function(M.fresh_name('from'), M.I, M.I)
        t = z3.Function(M.fresh_name('to'), M.I, M.I)
        kc = M.Or(*[gd for gd, _ in keep])
        s.assume(m >= 0, m <= n)
        s.assume(M.forall(1, lambda i: M.Imp(M.And(i >= 0, i < m), M.And(
            inrange(f(i)), skol(kc, f(i)), z3.Select(res, i) == val(f(i)), t(f(i)) == i)),
            lambda i: [z3.Select(res, i), f(i)], [M.I]))
        s.assume(M.forall(1, lambda k: M.Imp(inrange(k), M.And(
            skol(anycase, k),
            M.Imp(skol(kc, k), M.And(t(k) >= 0, t(k) < m, f(t(k)) == k,
                                     z3.Select(res, t(k)) == val(k))))),
            lambda k: [srcat(k), t(k)] if not it.rev else [t(k)], [M.I]))
        s.assume(M.forall(2, lambda a, b: M.Imp(
            M.And(a >= 0, a < b, b < m), f(a) < f(b)), lambda a, b: [(f(a), f(b))], [M.I, M.I]))
        ex.set_list(s, o.t, m, res)
        return [(s, o)]
    if kind in ('set', 'dict'):
        if kind == 'set':
            key = sel([(gd, v.t) for gd, v in keep])
            value = lambda k: M.TRUE
            kt, vt = ty_of([v.ty for _, v in keep]), ('bool',)
        else:
            key = sel([(gd, v[0].t) for gd, v in keep])
            value = sel([(gd, v[1].t) for gd, v in keep])
            kt, vt = ty_of([v[0].ty for _, v in keep]), ty_of([v[1].ty for _, v in keep])
        kc = M.Or(*[gd for gd, _ in keep])
        o = ex.alloc(s, 'set' if kind == 'set' else 'dict')
        m = M.fconst('m', M.MapS)
        w = z3.Function(M.fresh_name('who'), M.V, M.I)
        s.assume(M.forall(1, lambda q: M.Imp(z3.Select(m, q) != M.ABSENT, M.And(
            inrange(w(q)), skol(kc, w(q)), key(w(q)) == q, z3.Select(m, q) == value(w(q)))),
            lambda q: [z3.Select(m, q)]))
        s.assume(M.forall(1, lambda k: M.Imp(inrange(k), M.And(
            skol(anycase, k),
            M.Imp(skol(kc, k), M.And(z3.Select(m, key(k)) != M.ABSENT, w(key(k)) >= k)))),
            lambda k: [srcat(k)], [M.I]))
        ex.set_map(s, o, m)
        return [(s, E.SV(o, ('set', kt) if kind == 'set' else ('dict', kt, vt)))]
    return None


def loop_comp(ex, e, g, it, st, X, kind, ordinal):
    save = dict(st.loc)
    if kind == 'list':
        acc = ex.new_list(st, [])
    elif kind == 'set':
        t = ex.alloc(st, 'set')
        acc = E.SV(t, ('set', ANY))
    else:
        acc = ex.new_dict(st)
    st.loc['$acc'] = E.SV(acc.t, acc.ty)
    ets = []

    def body(s):
        X2 = []
        outs = []
        states = [s]
        for cond in g.ifs:
            nx = []
            for z in states:
                for w, c in ex.ev_cond(cond, z, X2):
                    t, f = ex.branch(w, c)
                    if t is not None:
                        nx.append(t)
                    if f is not None:
                        outs.append(('next', f, None))
            states = nx
        for z in states:
            if kind == 'dict':
                for w, (a, b) in ex.ev_seq([e.key, e.value], z, X2):
                    ex.dict_set(w, acc.t, ex.sv(w, a).t, ex.sv(w, b).t)
                    outs.append(('next', w, None))
            else:
                for w, a in ex.ev(e.elt, z, X2):
                    a = ex.sv(w, a)
                    ets.append(a.ty)
                    if kind == 'list':
                        ex.list_append(w, acc.t, a.t)
                    else:
                        ex.set_map(w, acc.t, z3.Store(w.H.dmap(acc.t), a.t, M.TRUE))
                    outs.append(('next', w, None))
        outs.extend(('exc', a, b) for a, b in X2)
        return outs
    names = target_names(g.target)
    out = []
    for k, z, v in run(ex, st, it, g.target, body, names, ordinal, e):
        z.loc = dict(save)
        if k == 'next':
            ty = acc.ty
            if kind == 'list' and ets:
                et = ets[0]
                for t in ets[1:]:
                    et = join_ty(et, t)
                ty = ('list', et)
            out.append((z, E.SV(acc.t, ty)))
        elif k == 'exc':
            X.append((z, v))
        else:
            raise Unsupported('comprehension outcome')
    return out
