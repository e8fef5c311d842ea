"""Semantics of the used builtins, container and string methods."""
import ast

import z3

from . import model as M
from . import types as T
from . import exec as E
from . import loops as L
from .db import db

ANY = ('any',)
Unsupported = M.Unsupported
SV = E.SV

DICT_M = {'get', 'items', 'keys', 'values', 'pop', 'update', 'copy', 'setdefault', 'clear',
          'iteritems', 'iterkeys', 'itervalues'}
LIST_M = {'append', 'extend', 'insert', 'index', 'remove', 'sort', 'pop', 'count', 'reverse'}
SET_M = {'add', 'discard', 'update', 'remove', 'union', 'difference', 'issubset'}
STR_M = {'format', 'join', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace',
         'rstrip', 'lstrip', 'encode', 'splitlines', 'isdigit', 'title', 'find', 'capitalize',
         'ljust', 'rjust', 'partition', 'rsplit', 'center', 'zfill'}


# ------------------------------------------------------------------ helpers
def map_update(ex, st, a, other):
    """a.update(other map)"""
    old = st.H.dmap(a.t)
    m = M.fconst('upd', M.MapS)
    st.assume(M.forall(1, lambda k: z3.Select(m, k) == M.over(z3.Select(other, k), z3.Select(old, k)),
                       lambda k: [z3.Select(m, k), z3.Select(old, k), z3.Select(other, k)]))
    ex.set_map(st, a.t, m)


def uf_str(name, *ts):
    """Uninterpreted deterministic string function of V terms."""
    f = z3.Function('str:' + name, *([M.V] * len(ts) + [M.S]))
    return SV(M.V.str(f(*ts)), ('str',))


def uf_bool(name, *ts):
    f = z3.Function('bool:' + name, *([M.V] * len(ts) + [z3.BoolSort()]))
    return f(*ts)


def uf_v(name, *ts):
    f = z3.Function('v:' + name, *([M.V] * len(ts) + [M.V]))
    return f(*ts)


def isinst(ex, st, v, c):
    """z3 Bool for isinstance(v, class value c)."""
    if isinstance(c, E.StaticSeq):
        return M.Or(*[isinst(ex, st, v, x) for x in c.items])
    if isinstance(c, SV) and c.ty[0] == 'tuple' and c.lit is not None:
        return M.Or(*[isinst(ex, st, v, x) for x in c.lit])
    if not isinstance(v, SV):
        if isinstance(v, (E.ViewV, E.SeqV)):
            return z3.BoolVal(False)
        v = ex.sv(st, v)
    t = v.t
    if isinstance(c, E.ExtV):
        return uf_bool('isinst:' + c.name, t)
    if not isinstance(c, E.ClassV):
        raise Unsupported('isinstance with %r' % (c,))
    n = c.name
    H = st.H
    if n in ('str', 'text_type'):
        return M.V.is_str(t)
    if n == 'bool':
        return M.V.is_bool(t)
    if n == 'int':
        return M.Or(M.V.is_int(t), M.V.is_bool(t))
    if n == 'dict':
        return H.isdict(t)
    if n == 'list':
        return H.islist(t)
    if n in ('set', 'frozenset'):
        return H.isset(t)
    if n == 'tuple':
        return M.Or(*[M.tup_is(t, k) for k in range(5)])
    if n in ('bytes', 'float'):
        return M.And(M.V.is_op(t), uf_bool('isinst:' + n, t))
    if n == 'type':
        return M.And(M.V.is_fun(t), uf_bool('isinst:type', t))
    if n == 'object':
        return z3.BoolVal(True)
    if ex.repo.is_exc_class(n):
        if v.ty[0] == 'exc':
            if ex.repo.exc_sub(v.ty[1], n):
                return z3.BoolVal(True)
        return M.And(M.V.is_ref(t), M.kindf(M.V.r(t)) == M.K_EXC, H.inst(t, n))
    if n in T.DICT_CLASSES:
        return M.And(H.isdict(t), H.inst(t, n))
    if n in ex.repo.classes:
        return M.And(H.iskind(t, 'obj'), H.inst(t, n))
    raise Unsupported('isinstance %s' % n)


def length(ex, st, v, X):
    if isinstance(v, E.StaticSeq):
        return [(st, ex.const(len(v.items)))]
    if isinstance(v, E.ViewV):
        m = v.m if v.m is not None else st.H.dmap(v.d.t)
        return [(st, card(ex, st, m))]
    v = ex.sv(st, v)
    k = v.ty[0]
    H = st.H
    if k == 'list':
        st = ex.need(st, H.islist(v.t), X, 'TypeError')
        if st is None:
            return []
        st.assume(st.H.llen(v.t) >= 0)
        return [(st, ex.isv(st.H.llen(v.t)))]
    if k in ('dict', 'set') or (k == 'obj' and v.ty[1] in T.DICT_CLASSES):
        st = ex.need(st, M.Or(H.isdict(v.t), H.isset(v.t)), X, 'TypeError')
        return [(st, card(ex, st, st.H.dmap(v.t)))] if st is not None else []
    if k == 'tuple':
        return [(st, ex.const(len(v.ty[1])))]
    if k == 'str':
        return [(st, strlen(ex, st, v))]
    if k in ('any', 'opt'):
        out = []
        t, f = ex.branch(st, M.Or(H.isdict(v.t), H.isset(v.t)))
        if t is not None:
            out.append((t, card(ex, t, t.H.dmap(v.t))))
        if f is not None:
            t, f = ex.branch(f, H.islist(v.t))
            if t is not None:
                t.assume(t.H.llen(v.t) >= 0)
                out.append((t, ex.isv(t.H.llen(v.t))))
        if f is not None:
            t, f = ex.branch(f, M.V.is_str(v.t))
            if t is not None:
                out.append((t, strlen(ex, t, v)))
        for n in range(5):
            if f is not None:
                t, f = ex.branch(f, M.tup_is(v.t, n))
                if t is not None:
                    out.append((t, ex.const(n)))
        if f is not None:
            t, f = ex.branch(f, M.Or(M.V.is_op(f and v.t)))
            if t is not None:
                raise Unsupported('len of opaque value')
            if f is not None:
                ex.raise_(f, 'TypeError', X)
        return out
    raise Unsupported('len of %s' % (v.ty,))


def strlen(ex, st, v):
    if M.STRING_MODE == 'smt':
        return ex.isv(z3.Length(M.V.s(v.t)))
    f = z3.Function('strlen', M.S, M.I)
    n = f(M.V.s(v.t))
    st.assume(n >= 0, (n == 0) == (v.t == M.vstr('')))
    return ex.isv(n)


def card(ex, st, m):
    n = M.cardf(m)
    st.assume(n >= 0, (n == 0) == (m == M.EMPTY))
    # card == 1: a single key
    st.assume(M.Imp(n == 1, M.And(
        z3.Select(m, M.choosef(m)) != M.ABSENT,
        M.forall(1, lambda k: M.Imp(z3.Select(m, k) != M.ABSENT, k == M.choosef(m)),
                 lambda k: [z3.Select(m, k)]))))
    st.assume(M.Imp(n > 1, z3.Exists(
        [z3.Const('c1', M.V), z3.Const('c2', M.V)],
        z3.And(z3.Const('c1', M.V) != z3.Const('c2', M.V),
               z3.Select(m, z3.Const('c1', M.V)) != M.ABSENT,
               z3.Select(m, z3.Const('c2', M.V)) != M.ABSENT))))
    return ex.isv(n)


def copy_map(ex, st, src, cls=None):
    d = ex.new_dict(st, cls)
    ex.set_map(st, d.t, st.H.dmap(src.t))
    if src.ty[0] == 'dict' and cls is None:
        d.ty = src.ty
    d.lit = None
    return d


def set_from(ex, st, v, X):
    """set(iterable)"""
    if isinstance(v, E.ViewV) and v.kind == 'keys' or (
            isinstance(v, SV) and (v.ty[0] in ('dict', 'set') or v.ty[0] == 'obj' and v.ty[1] in T.DICT_CLASSES)):
        d = v.d if isinstance(v, E.ViewV) else v
        m0 = st.H.dmap(d.t)
        kt = ex.dict_hints(d)[0]
        o = ex.alloc(st, 'set')
        m = M.fconst('set', M.MapS)
        st.assume(M.forall(1, lambda k: z3.Select(m, k) == z3.If(
            z3.Select(m0, k) != M.ABSENT, M.TRUE, M.ABSENT),
            lambda k: [z3.Select(m, k), z3.Select(m0, k)]))
        ex.set_map(st, o, m)
        return SV(o, ('set', kt))
    if isinstance(v, E.StaticSeq) or (isinstance(v, SV) and v.lit is not None):
        items = v.items if isinstance(v, E.StaticSeq) else v.lit
        o = ex.alloc(st, 'set')
        m = M.EMPTY
        for x in items:
            m = z3.Store(m, ex.sv(st, x).t, M.TRUE)
        ex.set_map(st, o, m)
        return SV(o, ('set', ANY))
    l = v if isinstance(v, SV) and v.ty[0] == 'list' else ex.to_list(v, st)
    o = ex.alloc(st, 'set')
    m = M.fconst('set', M.MapS)
    n, seq = st.H.llen(l.t), st.H.lseq(l.t)
    w = z3.Function(M.fresh_name('pos'), M.V, M.I)
    st.assume(M.forall(1, lambda k: M.And(
        M.Or(z3.Select(m, k) == M.TRUE, z3.Select(m, k) == M.ABSENT),
        M.Imp(z3.Select(m, k) != M.ABSENT, M.And(
            w(k) >= 0, w(k) < n, z3.Select(seq, w(k)) == k))), lambda k: [z3.Select(m, k)]))
    st.assume(M.forall(1, lambda j: M.Imp(M.And(j >= 0, j < n),
                                          z3.Select(m, z3.Select(seq, j)) == M.TRUE),
                       lambda j: [z3.Select(seq, j)], [M.I]))
    st.assume((n == 0) == (m == M.EMPTY))
    # as many members as elements iff the elements are distinct
    a, b = M.fconst('dup', M.I), M.fconst('dup', M.I)
    c = M.cardf(m)
    st.assume(c <= n, M.Imp(c != n, M.And(a >= 0, a < b, b < n, z3.Select(seq, a) == z3.Select(seq, b))))
    st.assume(M.forall(2, lambda i, j: M.Imp(M.And(c == n, i >= 0, i < j, j < n), z3.Select(seq, i) != z3.Select(seq, j)),
                       lambda i, j: [z3.MultiPattern(z3.Select(seq, i), z3.Select(seq, j))], [M.I, M.I]))
    ex.set_map(st, o, m)
    return SV(o, ('set', l.ty[1] if l.ty[0] == 'list' else ANY))


def sorted_list(ex, st, v, X, key=None, rev=False):
    """Sorted permutation (stable) of an iterable."""
    src = v if isinstance(v, SV) and v.ty[0] == 'list' else ex.to_list(v, st)
    n, s0 = st.H.llen(src.t), st.H.lseq(src.t)
    o = SV(ex.alloc(st, 'list'), ('list', src.ty[1] if src.ty[0] == 'list' else ANY))
    seq = M.fconst('sorted', M.SeqS)
    p = z3.Function(M.fresh_name('perm'), M.I, M.I)
    q = z3.Function(M.fresh_name('inv'), M.I, M.I)
    st.assume(n >= 0)
    st.assume(M.forall(1, lambda i: M.Imp(M.And(i >= 0, i < n), M.And(
        p(i) >= 0, p(i) < n, q(p(i)) == i, z3.Select(seq, i) == z3.Select(s0, p(i)))),
        lambda i: [z3.Select(seq, i), p(i)], [M.I]))
    st.assume(M.forall(1, lambda i: M.Imp(M.And(i >= 0, i < n), M.And(
        q(i) >= 0, q(i) < n, p(q(i)) == i, z3.Select(seq, q(i)) == z3.Select(s0, i))),
        lambda i: [z3.Select(s0, i), q(i)], [M.I]))
    if key is None:
        le = z3.Function('sortle', M.V, M.V, z3.BoolSort())
        st.assume(M.forall(2, lambda i, j: M.Imp(M.And(i >= 0, i < j, j < n), le(
            *( (z3.Select(seq, j), z3.Select(seq, i)) if rev else (z3.Select(seq, i), z3.Select(seq, j))))),
            lambda i, j: [(z3.Select(seq, i), z3.Select(seq, j))], [M.I, M.I]))
    ex.set_list(st, o.t, n, seq)
    return o


def quant_list(ex, st, l, isall):
    """all()/any() over a list value -> z3 Bool."""
    H = st.H
    n = H.llen(l.t)
    et = l.ty[1] if l.ty[0] == 'list' else ANY
    b = M.fconst('all' if isall else 'any', z3.BoolSort())
    w = M.fconst('w', M.I)

    def tr(j):
        c = ex.truth(st, SV(H.at(l.t, j), et))
        return c if isall else M.Not(c)
    st.assume(M.forall(1, lambda j: M.Imp(M.And(b if isall else M.Not(b), j >= 0, j < n), tr(j)),
                       lambda j: [H.at(l.t, j)], [M.I]))
    st.assume(M.Imp(M.Not(b) if isall else b, M.And(w >= 0, w < n, M.Not(tr(w)))))
    return b


# ------------------------------------------------------------------ builtins
def builtin(ex, name, args, kwargs, st, X, node):
    n = name
    if n == 'builtins.isinstance':
        return [(st, ex.bsv(isinst(ex, st, args[0], args[1])))]
    if n == 'builtins.len':
        return length(ex, st, args[0], X)
    if n == 'builtins.print':
        return [(st, ex.const(None))]
    if n in ('six.iteritems', 'six.iterkeys', 'six.itervalues', 'six.viewkeys'):
        return method(ex, args[0], {'six.iteritems': 'items', 'six.iterkeys': 'keys',
                                    'six.viewkeys': 'keys',
                                    'six.itervalues': 'values'}[n], [], {}, st, X, node)
    if n == 'builtins.sorted':
        return [(st, sorted_list(ex, st, args[0], X, kwargs.get('key'), 'reverse' in kwargs))]
    if n in ('builtins.reversed',):
        v = args[0]
        if isinstance(v, SV) and v.ty[0] == 'list':
            return [(st, E.SeqV(v, True))]
        if isinstance(v, SV) and v.ty[0] == 'any':
            s = ex.need(st, st.H.islist(v.t), X, 'TypeError')
            return [(s, E.SeqV(SV(v.t, ('list', ANY)), True))] if s is not None else []
        if isinstance(v, E.StaticSeq):
            return [(st, E.StaticSeq(list(reversed(v.items))))]
        return [(st, E.SeqV(ex.to_list(v, st), True))]
    if n in ('builtins.map', 'six.moves.map'):
        return map_call(ex, args, st, X, node, False)
    if n in ('builtins.filter', 'six.moves.filter'):
        return map_call(ex, args, st, X, node, True)
    if n in ('builtins.zip', 'six.moves.zip'):
        return [(st, E.ZipV(args[0], args[1]))]
    if n in ('builtins.all', 'builtins.any'):
        v = args[0]
        if isinstance(v, E.StaticSeq):
            cs = [ex.truth(st, x) for x in v.items]
            return [(st, ex.bsv(M.And(*cs) if n.endswith('all') else M.Or(*cs)))]
        if not (isinstance(v, SV) and v.ty[0] == 'list'):
            v = ex.to_list(v, st)
        return [(st, ex.bsv(quant_list(ex, st, v, n.endswith('all'))))]
    if n == 'builtins.hasattr':
        return hasattr_(ex, args, st, X)
    if n == 'builtins.getattr':
        nm = E.str_lit(ex.sv(st, args[1]).t)
        if nm is None:
            raise Unsupported('getattr with computed name')
        return ex.get_attr(args[0], nm, st, X)
    if n == 'builtins.enumerate':
        return enumerate_(ex, args, st, X)
    if n in ('builtins.max', 'builtins.min') and len(args) == 2:
        a, b = ex.sv(st, args[0]), ex.sv(st, args[1])
        if a.ty[0] == 'int' and b.ty[0] == 'int':
            x, y = M.V.i(a.t), M.V.i(b.t)
            return [(st, ex.isv(z3.If(x >= y if n.endswith('max') else x <= y, x, y)))]
    if n == 'builtins.vars':
        raise Unsupported('vars')
    if n == 'builtins.id':
        return [(st, ex.isv(z3.Function('pyid', M.V, M.I)(ex.sv(st, args[0]).t)))]
    if n == 'builtins.hash':
        return [(st, ex.isv(z3.Function('pyhash', M.V, M.I)(ex.sv(st, args[0]).t)))]
    if n == 'builtins.repr':
        return [(st, uf_str('repr', ex.sv(st, args[0]).t))]
    if n == 'builtins.callable':
        return [(st, ex.bsv(M.V.is_fun(ex.sv(st, args[0]).t)))]
    raise Unsupported('external function %s' % name)


def hasattr_(ex, args, st, X):
    nm = E.str_lit(ex.sv(st, args[1]).t)
    v = ex.sv(st, args[0])
    if nm is None:
        raise Unsupported('hasattr with computed name')
    if v.ty[0] == 'obj' and v.ty[1] in T.DICT_CLASSES:
        return [(st, ex.bsv(st.H.has(v.t, M.vstr(nm))))]
    if v.ty[0] == 'exc' and nm in db.fields.get('exc', {}):
        return [(st, ex.bsv(st.H.field(v.t, nm) != M.ABSENT))]
    raise Unsupported('hasattr on %s' % (v.ty,))


def enumerate_(ex, args, st, X):
    v = args[0]
    if isinstance(v, SV) and v.ty[0] == 'list':
        n = st.H.llen(v.t)
        s0 = st.H.lseq(v.t)
        o = SV(ex.alloc(st, 'list'), ('list', ('tuple', (('int',), v.ty[1]))))
        seq = M.fconst('enum', M.SeqS)
        st.assume(M.forall(1, lambda j: M.Imp(M.And(j >= 0, j < n), z3.Select(seq, j) == M.V.t2(
            M.V.int(j), z3.Select(s0, j))), lambda j: [z3.Select(seq, j), z3.Select(s0, j)], [M.I]))
        ex.set_list(st, o.t, n, seq)
        return [(st, o)]
    if isinstance(v, E.StaticSeq) or (isinstance(v, SV) and v.lit is not None):
        items = v.items if isinstance(v, E.StaticSeq) else v.lit
        return [(st, E.StaticSeq([E.StaticSeq([ex.const(i), x]) for i, x in enumerate(items)]))]
    raise Unsupported('enumerate')


def map_call(ex, args, st, X, node, isfilter):
    if len(args) != 2:
        raise Unsupported('map with several iterables')
    x = ast.Name(id='$x', ctx=ast.Load())
    call = ast.Call(func=ast.Name(id='$f', ctx=ast.Load()), args=[x], keywords=[])
    gen = ast.comprehension(target=ast.Name(id='$x', ctx=ast.Store()),
                            iter=ast.Name(id='$it', ctx=ast.Load()),
                            ifs=[call] if isfilter else [], is_async=0)
    comp = ast.ListComp(elt=x if isfilter else call, generators=[gen])
    ast.fix_missing_locations(comp)
    saved = dict(st.loc)
    st.loc['$f'] = args[0]
    st.loc['$it'] = args[1]
    out = []
    for s, v in L.comprehension(ex, comp, st, X, 'list'):
        for k in ('$f', '$it', '$x'):
            s.loc.pop(k, None)
        out.append((s, v))
    return out


# ------------------------------------------------------------------ constructors
def construct(ex, name, args, kwargs, st, X, node):
    if name == 'dict':
        d = None
        if not args:
            d = ex.new_dict(st)
        else:
            v = args[0]
            if isinstance(v, SV) and (v.ty[0] == 'dict' or (v.ty[0] == 'obj' and v.ty[1] in T.DICT_CLASSES)):
                st = ex.need(st, st.H.isdict(v.t), X, 'TypeError')
                if st is None:
                    return []
                d = copy_map(ex, st, v)
            elif isinstance(v, SV) and v.ty[0] == 'list':
                d = dict_from_pairs(ex, st, v)
            else:
                raise Unsupported('dict()')
        for k, v in kwargs.items():
            ex.dict_set(st, d.t, M.vstr(k), ex.sv(st, v).t)
        return [(st, d)]
    if name == 'list':
        if not args:
            l = ex.new_list(st, [])
            l.lit = []
            return [(st, l)]
        v = args[0]
        if isinstance(v, SV) and v.ty[0] in ('dict',):
            v = E.ViewV('keys', v)
        return [(st, ex.to_list(v, st))]
    if name in ('set', 'frozenset'):
        if not args:
            return [(st, SV(ex.alloc(st, 'set'), ('set', ANY)))]
        return [(st, set_from(ex, st, args[0], X))]
    if name == 'tuple':
        v = args[0] if args else E.StaticSeq([])
        if isinstance(v, (E.StaticSeq,)) or (isinstance(v, SV) and v.ty[0] == 'tuple'):
            return [(st, v)]
        if isinstance(v, SV) and v.ty[0] == 'list' and v.lit is not None:
            return [(st, E.StaticSeq(list(v.lit)))]
        if isinstance(v, E.SeqV) and isinstance(v.lst, SV) and v.lst.lit is not None:
            return [(st, E.StaticSeq(list(reversed(v.lst.lit)) if v.rev else list(v.lst.lit)))]
        if isinstance(v, SV) and v.ty[0] == 'list':
            return [(st, SV(uf_v('tuple', v.t), ANY))]
        raise Unsupported('tuple()')
    if name == 'str':
        v = args[0]
        try:
            v = ex.sv(st, v)
        except Unsupported:
            return [(st, ex.ssv('str'))]
        if v.ty[0] == 'str':
            return [(st, v)]
        f = z3.Function('pystr', M.V, M.S)
        r = f(v.t)
        st.assume(M.Imp(M.V.is_str(v.t), r == M.V.s(v.t)))
        return [(st, SV(M.V.str(r), ('str',)))]
    if name == 'bool':
        return [(st, ex.bsv(ex.truth(st, args[0])))]
    if name == 'type' and len(args) == 1:
        v = ex.sv(st, args[0])
        return [(st, SV(M.V.fun(z3.Function('typeof', M.V, M.I)(v.t)), ('fun',)))]
    if name == 'int':
        v = ex.sv(st, args[0])
        ok = uf_bool('isint', v.t)
        st = ex.need(st, ok, X, 'ValueError')
        if st is None:
            return []
        return [(st, ex.isv(z3.Function('toint', M.V, M.I)(v.t)))]
    if name == 'object':
        return [(st, SV(ex.alloc(st, 'obj'), ANY))]
    raise Unsupported('constructor %s' % name)


def dict_from_pairs(ex, st, l):
    """dict(list of pairs): last occurrence of a key wins."""
    n, seq = st.H.llen(l.t), st.H.lseq(l.t)
    d = ex.new_dict(st)
    m = M.fconst('pairs', M.MapS)
    w = z3.Function(M.fresh_name('last'), M.V, M.I)
    st.assume(M.forall(1, lambda k: M.Imp(z3.Select(m, k) != M.ABSENT, M.And(
        w(k) >= 0, w(k) < n, z3.Select(seq, w(k)) == M.V.t2(k, z3.Select(m, k)))),
        lambda k: [z3.Select(m, k)]))
    st.assume(M.forall(1, lambda j: M.Imp(M.And(j >= 0, j < n), M.And(
        z3.Select(m, M.V.t2a(z3.Select(seq, j))) != M.ABSENT, w(M.V.t2a(z3.Select(seq, j))) >= j)),
        lambda j: [z3.Select(seq, j)], [M.I]))
    ex.set_map(st, d.t, m)
    et = l.ty[1]
    if et[0] == 'tuple' and len(et[1]) == 2:
        d.ty = ('dict', et[1][0], et[1][1])
    d.lit = None
    return d


# ------------------------------------------------------------------ methods
def class_method(ex, cls, name, args, kwargs, st, X, node):
    if cls.name in ('str', 'text_type') and args:
        return method(ex, args[0], name, args[1:], kwargs, st, X, node)
    if cls.name == 'dict' and name == '__init__':
        for a in args[1:]:
            map_update(ex, st, args[0], st.H.dmap(ex.sv(st, a).t))
        return [(st, ex.const(None))]
    if cls.name == 'dict':
        return method(ex, SV(args[0].t, ('dict', ANY, ANY)), name, args[1:], kwargs, st, X, node)
    if cls.ci is not None or cls.name == 'Exception':
        if name == '__init__':
            return [(st, ex.const(None))]
    raise Unsupported('%s.%s' % (cls.name, name))


def method(ex, v, name, args, kwargs, st, X, node):
    from . import calls
    if isinstance(v, E.ViewV):
        if name in ('sort',):
            ex.raise_(st, 'AttributeError', X)
            return []
        raise Unsupported('view.%s' % name)
    if isinstance(v, E.StaticSeq):
        if name == 'index':
            raise Unsupported('tuple.index')
        raise Unsupported('method of static sequence')
    ty = v.ty
    k = ty[0]
    if k == 'opt':
        t, f = ex.branch(st, v.t != M.NONE)
        if f is not None:
            ex.raise_(f, 'AttributeError', X)
        return calls.call_method(ex, SV(v.t, ty[1]), name, args, kwargs, t, X, node) if t is not None else []
    if k == 'dict' or (k == 'obj' and ty[1] in T.DICT_CLASSES):
        return dict_method(ex, v, name, args, kwargs, st, X)
    if k == 'list':
        return list_method(ex, v, name, args, kwargs, st, X)
    if k == 'set':
        return set_method(ex, v, name, args, kwargs, st, X)
    if k == 'str':
        return str_method(ex, v, name, args, kwargs, st, X)
    if k in ('none', 'bool', 'int'):
        ex.raise_(st, 'AttributeError', X)
        return []
    if k == 'exc':
        raise Unsupported('exception method %s' % name)
    if k == 'any':
        out = []
        f = st
        H = f.H
        cands = []
        if name in DICT_M:
            cands.append((lambda H: H.isdict(v.t), ('dict', ANY, ANY)))
        if name in LIST_M:
            cands.append((lambda H: H.islist(v.t), ('list', ANY)))
        if name in SET_M:
            cands.append((lambda H: H.isset(v.t), ('set', ANY)))
        if name in STR_M:
            cands.append((lambda H: M.V.is_str(v.t), ('str',)))
        if not cands:
            raise Unsupported('method %s of unknown value' % name)
        for cond, hint in cands:
            if f is None:
                break
            t, f = ex.branch(f, cond(f.H))
            if t is not None:
                out.extend(method(ex, SV(v.t, hint), name, args, kwargs, t, X, node))
        if f is not None:
            # objects of other classes might have the method; bytes too
            amb, f = ex.branch(f, M.Or(M.V.is_op(v.t), M.And(
                M.V.is_ref(v.t), M.kindf(M.V.r(v.t)) == M.K_OBJ)))
            # (a dry run of a loop knows less than the run itself)
            if amb is not None and not ex.record:
                raise Unsupported('method %s of unknown object' % name)
            if f is not None:
                ex.raise_(f, 'AttributeError', X)
        return out
    raise Unsupported('method %s of %s' % (name, ty))


def dict_method(ex, v, name, args, kwargs, st, X):
    H = st.H
    st = ex.need(st, H.isdict(v.t), X, 'AttributeError')
    if st is None:
        return []
    H = st.H
    kt, vt = ex.dict_hints(v)
    if name in ('items', 'iteritems'):
        return [(st, E.ViewV('items', v))]
    if name in ('keys', 'iterkeys'):
        return [(st, E.ViewV('keys', v))]
    if name in ('values', 'itervalues'):
        return [(st, E.ViewV('values', v))]
    if 'dict.' + name in db.externals:
        return db.externals['dict.' + name](ex, st, [v] + args, kwargs, X, None)
    if name == 'get':
        k = ex.sv(st, args[0])
        d = args[1] if len(args) > 1 else ex.const(None)
        st = ex.need(st, ex.hashable(st, k), X, 'TypeError')
        if st is None:
            return []
        H = st.H
        t, f = ex.branch(st, H.has(v.t, k.t))
        out = []
        if t is not None:
            out.append((t, ex.hinted(t, t.H.get(v.t, k.t), vt)))
        if f is not None:
            out.append((f, d))
        return out
    if name == 'pop':
        k = ex.sv(st, args[0])
        out = []
        t, f = ex.branch(st, H.has(v.t, k.t))
        if t is not None:
            val = t.H.get(v.t, k.t)
            r = ex.hinted(t, val, vt)
            ex.dict_del(t, v.t, k.t)
            out.append((t, r))
        if f is not None:
            if len(args) > 1:
                out.append((f, args[1]))
            else:
                ex.raise_(f, 'KeyError', X)
        return out
    if name == 'update':
        o = ex.sv(st, args[0])
        st = ex.need(st, st.H.isdict(o.t), X, 'TypeError')
        if st is None:
            return []
        map_update(ex, st, v, st.H.dmap(o.t))
        return [(st, ex.const(None))]
    if name == 'copy':
        return [(st, copy_map(ex, st, v))]
    if name == 'clear':
        ex.set_map(st, v.t, M.EMPTY)
        return [(st, ex.const(None))]
    if name == 'setdefault':
        k = ex.sv(st, args[0])
        d = ex.sv(st, args[1] if len(args) > 1 else ex.const(None))
        t, f = ex.branch(st, H.has(v.t, k.t))
        out = []
        if t is not None:
            out.append((t, ex.hinted(t, t.H.get(v.t, k.t), vt)))
        if f is not None:
            ex.dict_set(f, v.t, k.t, d.t)
            out.append((f, d))
        return out
    if name == '__getitem__':
        return ex.get_item(SV(v.t, ('dict', kt, vt)), args[0], st, X)
    if name == '__contains__':
        return [(st, ex.bsv(st.H.has(v.t, ex.sv(st, args[0]).t)))]
    raise Unsupported('dict.%s' % name)


def list_method(ex, v, name, args, kwargs, st, X):
    st = ex.need(st, st.H.islist(v.t), X, 'AttributeError')
    if st is None:
        return []
    H = st.H
    if name == 'append':
        ex.list_append(st, v.t, ex.sv(st, args[0]).t)
        return [(st, ex.const(None))]
    if name == 'extend':
        o = args[0]
        if not (isinstance(o, SV) and o.ty[0] == 'list'):
            o = ex.to_list(o, st)
        ex.list_extend(st, v, o)
        return [(st, ex.const(None))]
    if name == 'sort':
        o = sorted_list(ex, st, v, X, kwargs.get('key'), 'reverse' in kwargs)
        ex.set_list(st, v.t, st.H.llen(o.t), st.H.lseq(o.t))
        return [(st, ex.const(None))]
    if name == 'index':
        x = ex.sv(st, args[0])
        b = ex.in_list(st, x, v)
        st = ex.need(st, b, X, 'ValueError')
        if st is None:
            return []
        i = M.fconst('ix', M.I)
        H = st.H
        n = H.llen(v.t)
        st.assume(i >= 0, i < n, H.at(v.t, i) == x.t)
        st.assume(M.forall(1, lambda j: M.Imp(M.And(j >= 0, j < i), H.at(v.t, j) != x.t),
                           lambda j: [H.at(v.t, j)], [M.I]))
        return [(st, ex.isv(i))]
    if name == 'insert':
        i = E.int_lit(ex.sv(st, args[0]).t)
        if i != 0:
            raise Unsupported('list.insert')
        o = ex.new_list(st, [ex.sv(st, args[1])])
        r = ex.list_concat(st, o, v)
        ex.set_list(st, v.t, st.H.llen(r.t), st.H.lseq(r.t))
        return [(st, ex.const(None))]
    if name == 'pop' and not args:
        n = H.llen(v.t)
        st = ex.need(st, n > 0, X, 'IndexError')
        if st is None:
            return []
        r = ex.hinted(st, st.H.at(v.t, n - 1), v.ty[1])
        ex.set_list(st, v.t, n - 1, st.H.lseq(v.t))
        return [(st, r)]
    raise Unsupported('list.%s' % name)


def set_method(ex, v, name, args, kwargs, st, X):
    st = ex.need(st, st.H.isset(v.t), X, 'AttributeError')
    if st is None:
        return []
    if name == 'add':
        x = ex.sv(st, args[0])
        st = ex.need(st, ex.hashable(st, x), X, 'TypeError')
        if st is None:
            return []
        ex.set_map(st, v.t, z3.Store(st.H.dmap(v.t), x.t, M.TRUE))
        return [(st, ex.const(None))]
    if name == 'discard':
        x = ex.sv(st, args[0])
        ex.set_map(st, v.t, z3.Store(st.H.dmap(v.t), x.t, M.ABSENT))
        return [(st, ex.const(None))]
    if name == 'update':
        o = set_from(ex, st, args[0], X)
        map_update(ex, st, v, st.H.dmap(o.t))
        return [(st, ex.const(None))]
    if name in ('union', 'difference', 'intersection'):
        o = set_from(ex, st, args[0], X)
        return [(st, ex.set_op(st, {'union': 'or', 'difference': 'diff', 'intersection': 'and'}[name], v, o))]
    raise Unsupported('set.%s' % name)


def str_method(ex, v, name, args, kwargs, st, X):
    if name == 'format':
        text = E.str_lit(v.t)
        import string as _s
        if text is None:
            return [(st, ex.ssv('fmt'))]
        # replacement fields must be covered by the arguments
        auto = 0
        used = set()
        for _lit, fld, _spec, _conv in _s.Formatter().parse(text):
            if fld is None:
                continue
            head = fld.split('.')[0].split('[')[0]
            if head == '':
                head = str(auto)
                auto += 1
            if head.isdigit():
                if int(head) >= len(args):
                    ex.raise_(st, 'IndexError', X)
                    return []
            elif head not in kwargs:
                ex.raise_(st, 'KeyError', X)
                return []
        try:
            vals = [ex.sv(st, a) for a in args] + [ex.sv(st, kwargs[k]) for k in sorted(kwargs)]
        except Unsupported:
            return [(st, ex.ssv('fmt'))]
        return [(st, ex.fmt_result('{:' + text, vals, st))]
    if name == 'join':
        o = args[0]
        if isinstance(o, SV) and o.lit is not None or isinstance(o, E.StaticSeq):
            items = o.lit if isinstance(o, SV) else o.items
            for x in items:
                st = ex.need(st, M.V.is_str(ex.sv(st, x).t), X, 'TypeError')
                if st is None:
                    return []
            return [(st, uf_str('join', v.t, *[ex.sv(st, x).t for x in items]))]
        if not (isinstance(o, SV) and o.ty[0] == 'list'):
            o = ex.to_list(o, st)
        if o.ty[1] != ('str',):
            l = o
            b = quant_pred(ex, st, l, lambda t: M.V.is_str(t))
            st = ex.need(st, b, X, 'TypeError')
            if st is None:
                return []
        f = z3.Function('joinseq', M.S, M.I, M.SeqS, M.S)
        H = st.H
        return [(st, SV(M.V.str(f(M.V.s(v.t), H.llen(o.t), H.lseq(o.t))), ('str',)))]
    if name in ('startswith', 'endswith'):
        a = ex.sv(st, args[0])
        if M.STRING_MODE == 'smt':
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            return [(st, ex.bsv(f(M.V.s(a.t), M.V.s(v.t))))]
        return [(st, ex.bsv(uf_bool(name, v.t, a.t)))]
    if name in ('strip', 'lower', 'upper', 'replace', 'rstrip', 'lstrip', 'title', 'capitalize',
                'ljust', 'rjust'):
        return [(st, uf_str(name, v.t, *[ex.sv(st, a).t for a in args]))]
    if name in ('split', 'rsplit') and len(args) == 2 and not kwargs and E.int_lit(ex.sv(st, args[1]).t) == 1 or name in ('partition', 'rpartition'):
        sep = ex.sv(st, args[0])
        st = ex.need(st, M.And(M.V.is_str(sep.t), sep.t != M.vstr('')), X, 'TypeError')
        if st is None:
            return []
        out = []
        t, f = ex.branch(st, ex.str_contains(v.t, sep.t))
        r = name[0] == 'r'
        if t is not None:
            hd, tl = split_once(v.t, sep.t, r)
            if name.endswith('partition'):
                out.append((t, E.StaticSeq([hd, sep, tl])))
            else:
                l = ex.new_list(t, [hd, tl])
                l.ty, l.lit = ('list', ('str',)), [hd, tl]
                out.append((t, l))
        if f is not None:
            if name.endswith('partition'):
                e = ex.const('')
                out.append((f, E.StaticSeq([e, e, v] if r else [v, e, e])))
            else:
                l = ex.new_list(f, [v])
                l.ty, l.lit = ('list', ('str',)), [v]
                out.append((f, l))
        return out
    if name in ('split', 'splitlines', 'rsplit'):
        o = SV(ex.alloc(st, 'list'), ('list', ('str',)))
        fn = z3.Function('n:%s:%d' % (name, len(args)), *([M.V] * (1 + len(args)) + [M.I]))
        fs = z3.Function('s:%s:%d' % (name, len(args)), *([M.V] * (1 + len(args)) + [M.SeqS]))
        ts = [v.t] + [ex.sv(st, a).t for a in args]
        n, seq = fn(*ts), fs(*ts)
        st.assume(n >= (1 if name == 'split' and args else 0))
        st.assume(M.forall(1, lambda j: M.Imp(M.And(j >= 0, j < n), M.V.is_str(z3.Select(seq, j))),
                           lambda j: [z3.Select(seq, j)], [M.I]))
        ex.set_list(st, o.t, n, seq)
        return [(st, o)]
    if name == 'isdigit':
        return [(st, ex.bsv(uf_bool(name, v.t)))]
    if name == 'encode':
        return [(st, SV(M.V.op(z3.Function('encode', M.V, M.I)(v.t)), ANY))]
    if name in ('find', 'count'):
        return [(st, ex.isv(z3.Function('int:' + name, M.V, M.V, M.I)(v.t, ex.sv(st, args[0]).t)))]
    if not hasattr(str, name):
        ex.raise_(st, 'AttributeError', X)
        return []
    raise Unsupported('str.%s' % name)


def rev(t):
    return M.V.str(z3.Function('slice:::-1', M.S, M.S)(M.V.s(t)))


def split_once(t, sep, last=False):
    """Parts of a text before and after the first (last) occurrence of a separator it contains."""
    if last:
        a, b = split_once(rev(t), sep)      # separators of one character
        return SV(rev(b.t), ('str',)), SV(rev(a.t), ('str',))
    return uf_str('part.head', t, sep), uf_str('part.tail', t, sep)


def quant_pred(ex, st, l, pred):
    H = st.H
    n = H.llen(l.t)
    b = M.fconst('allp', z3.BoolSort())
    w = M.fconst('w', M.I)
    st.assume(M.forall(1, lambda j: M.Imp(M.And(b, j >= 0, j < n), pred(H.at(l.t, j))),
                       lambda j: [H.at(l.t, j)], [M.I]))
    st.assume(M.Imp(M.Not(b), M.And(w >= 0, w < n, M.Not(pred(H.at(l.t, w))))))
    return b
