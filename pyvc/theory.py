"""Mathematical functions on sequences, axiomatised where they are used.

first(n, seq, x): least index below n at which x stands in seq, n if none.
The axioms are consequences of this definition (proved in pyvc/lemmas.py).
"""
import z3

from . import model as M

I = M.I
THEORIES = []       # instances, whose axioms are proved in lemmas.py
_first = z3.Function('seqfirst', I, M.SeqS, M.V, I)


def _axioms():
    n, m, j = z3.Ints('n!th m!th j!th')
    s = z3.Const('s!th', M.SeqS)
    x, v = z3.Consts('x!th v!th', M.V)
    f = _first
    a = []
    a.append(z3.ForAll([n, s, x], z3.Implies(n >= 0, z3.And(
        f(n, s, x) >= 0, f(n, s, x) <= n,
        z3.Implies(f(n, s, x) < n, z3.Select(s, f(n, s, x)) == x))), patterns=[f(n, s, x)]))
    a.append(z3.ForAll([n, s, x, j], z3.Implies(z3.And(j >= 0, j < n, z3.Select(s, j) == x), f(n, s, x) <= j),
                       patterns=[z3.MultiPattern(f(n, s, x), z3.Select(s, j))]))
    st = z3.Store(s, m, v)
    a.append(z3.ForAll([n, m, s, x, v], z3.Implies(z3.And(m >= 0, n == m + 1), f(n, st, x) == z3.If(
        f(m, s, x) < m, f(m, s, x), z3.If(v == x, m, n))), patterns=[f(n, st, x)]))
    a.append(z3.ForAll([n, m, s, x], z3.Implies(z3.And(m >= 0, m <= n), z3.And(
        z3.Implies(f(m, s, x) < m, f(n, s, x) == f(m, s, x)),
        z3.Implies(f(n, s, x) < m, f(m, s, x) == f(n, s, x)))),
        patterns=[z3.MultiPattern(f(m, s, x), f(n, s, x))]))
    return a


M.OPAQUE['seqfirst'] = _axioms()


def first(H, l, x, n=None):
    """index of x in list l (or its first n elements); the length if absent"""
    return _first(H.llen(l) if n is None else n, H.lseq(l), x)


def inlist(H, l, x, n=None):
    k = H.llen(l) if n is None else n
    return _first(k, H.lseq(l), x) < k




def dedup(H, res, G, src, n=None):
    """res: the distinct elements of src (first n) in order of first occurrence"""
    return [
        ('elements', M.forall(1, lambda x: inlist(H, res, x) == inlist(G, src, x, n),
                              lambda x: [first(H, res, x), first(G, src, x, n)])),
        ('order', M.forall(2, lambda i, j: M.Imp(M.And(i >= 0, i < j, j < H.llen(res)), first(
            G, src, H.at(res, i), n) < first(G, src, H.at(res, j), n)),
            lambda i, j: [(H.at(res, i), H.at(res, j))], [I, I]))]


class Sum(object):
    """sum(*args, n): the sum of the non-negative term(*args, j) for j below n"""

    def __init__(self, name, sorts, term):
        self.name, self.sorts, self.par = name, list(sorts), (term,)
        THEORIES.append(self)
        self.f = z3.Function(name, *(list(sorts) + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
        m, n = z3.Int('m!' + name), z3.Int('n!' + name)
        f = lambda k: self.f(*(xs + [k]))
        t = term(*(xs + [m]))
        M.OPAQUE[name] = [
            z3.ForAll(xs + [n], z3.And(z3.Implies(n <= 0, f(n) == 0), f(n) >= 0), patterns=[f(n)]),
            z3.ForAll(xs + [m, n], z3.Implies(z3.And(m >= 0, n == m + 1), f(n) == f(m) + z3.If(t > 0, t, 0)),
                      patterns=[z3.MultiPattern(f(m), f(n))]),
            z3.ForAll(xs + [m, n], z3.Implies(z3.And(m >= 0, m < n), z3.And(f(m) <= f(n), f(m) + z3.If(t > 0, t, 0) <= f(n))),
                      patterns=[z3.MultiPattern(f(m), f(n))])]

    def __call__(self, *a):
        return self.f(*a)


class Owner(object):
    """owner(*args, k): the index i whose segment sum(i) <= k < sum(i) + term(i) has k"""

    def __init__(self, name, of):
        self.of, self.name, self.sorts = of, name, list(of.sorts)
        THEORIES.append(self)
        self.f = z3.Function(name, *(self.sorts + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(self.sorts)]
        i, k, n = z3.Int('i!' + name), z3.Int('k!' + name), z3.Int('n!' + name)
        s, w = (lambda j: of.f(*(xs + [j]))), self.f(*(xs + [k]))
        self.has = lambda xs, j, k: z3.And(j >= 0, of.f(*(xs + [j])) <= k, k < of.f(*(xs + [j])) + of.par[0](*(xs + [j])))
        M.OPAQUE[name] = [
            z3.ForAll(xs + [n, k], z3.Implies(z3.And(n >= 0, k >= 0, k < s(n)), z3.And(w < n, self.has(xs, w, k))),
                      patterns=[z3.MultiPattern(w, s(n))]),
            z3.ForAll(xs + [i, k], z3.Implies(self.has(xs, i, k), w == i), patterns=[z3.MultiPattern(w, s(i))])]

    def __call__(self, *a):
        return self.f(*a)


class Least(object):
    """least(*args, n): the first index below n with pred(*args, j), n if none.

    elem(*args, j): term that mentions index j (for instantiation)
    """

    def __init__(self, name, sorts, pred, elem):
        self.name, self.sorts, self.par = name, list(sorts), (pred,)
        THEORIES.append(self)
        self.f = z3.Function(name, *(list(sorts) + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
        n, j = z3.Int('n!' + name), z3.Int('j!' + name)
        f = self.f(*(xs + [n]))
        M.OPAQUE[name] = [
            z3.ForAll(xs + [n], z3.And(z3.Implies(n < 0, f == n), z3.Implies(n >= 0, z3.And(f >= 0, f <= n, z3.Implies(
                f < n, pred(*(xs + [f])))))), patterns=[f]),
            z3.ForAll(xs + [n, j], z3.Implies(z3.And(j >= 0, j < n, pred(*(xs + [j]))), f <= j),
                      patterns=[z3.MultiPattern(f, elem(*(xs + [j])))])]

    def __call__(self, *a):
        return self.f(*a)


class Last(object):
    """last(*args, n): the last index below n with pred(*args, j), -1 if none.

    elem(*args, j): term that mentions index j (for instantiation)
    """

    def __init__(self, name, sorts, pred, elem):
        self.name, self.sorts, self.par = name, list(sorts), (pred,)
        THEORIES.append(self)
        self.f = z3.Function(name, *(list(sorts) + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
        n, j = z3.Int('n!' + name), z3.Int('j!' + name)
        f = self.f(*(xs + [n]))
        M.OPAQUE[name] = [
            z3.ForAll(xs + [n], z3.Implies(n >= 0, z3.And(f >= -1, f < z3.If(n > 0, n, 1), z3.Implies(n == 0, f == -1), z3.Implies(
                f >= 0, pred(*(xs + [f]))))), patterns=[f]),
            z3.ForAll(xs + [n, j], z3.Implies(z3.And(j >= 0, j < n, pred(*(xs + [j]))), f >= j),
                      patterns=[z3.MultiPattern(f, elem(*(xs + [j])))])]

    def __call__(self, *a):
        return self.f(*a)


class Filter(object):
    """The elements of a sequence which satisfy a predicate, in order.

    pred(*args, j): element j is kept.  count(*args, n): kept elements below
    n.  nth(*args, i): index of kept element number i.  The axioms follow
    from this definition (pyvc/lemmas.py).
    """

    def __init__(self, name, sorts, pred):
        self.pred = pred
        self.name, self.sorts, self.par = name, list(sorts), (pred,)
        THEORIES.append(self)
        self.f = z3.Function(name, *(list(sorts) + [I, I]))
        self.g = z3.Function(name + '@', *(list(sorts) + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
        m, n = z3.Int('m!' + name), z3.Int('n!' + name)
        f, g = lambda k: self.f(*(xs + [k])), lambda k: self.g(*(xs + [k]))
        p = lambda k: pred(*(xs + [k]))
        A = lambda vs, b, pat: z3.ForAll(xs + vs, b, patterns=[pat])
        M.OPAQUE[name] = [
            A([n], z3.And(z3.Implies(n <= 0, f(n) == 0), z3.Implies(n >= 0, z3.And(f(n) >= 0, f(n) <= n)),
                          z3.Implies(z3.And(n >= 0, p(n)), g(f(n)) == n)), f(n)),
            A([m, n], z3.Implies(z3.And(m >= 0, n == m + 1), f(n) == f(m) + z3.If(p(m), 1, 0)),
              z3.MultiPattern(f(m), f(n))),
            A([m, n], z3.Implies(z3.And(m >= 0, m < n), z3.And(f(m) <= f(n), z3.Implies(p(m), f(m) < f(n)))),
              z3.MultiPattern(f(m), f(n))),
            A([m, n], z3.Implies(z3.And(m >= 0, n >= 0, m < f(n)), z3.And(
                g(m) >= 0, g(m) < n, p(g(m)), f(g(m)) == m)), z3.MultiPattern(g(m), f(n))),
        ]

    def count(self, *a):
        return self.f(*a)

    def nth(self, *a):
        return self.g(*a)

    def is_(self, H, res, args, n, elem):
        """res lists elem(j) of the kept j below n, in order"""
        return [('length', H.llen(res) == self.f(*(list(args) + [n]))),
                ('elements', M.forall(1, lambda i: M.Imp(M.And(i >= 0, i < H.llen(res)), H.at(res, i) == elem(
                    self.g(*(list(args) + [i])))), lambda i: [H.at(res, i)], [I]))]


class Groups(object):
    """Grouping of neighbouring elements: element j > 0 is in the group of
    element j-1 where same(*args, j).  group(*args, j): number of its group;
    off(*args, j): total size(*args, i) of the elements i < j of its group.
    """

    def __init__(self, name, sorts, same, size):
        self.name, self.sorts, self.par = name, list(sorts), (same, size,)
        THEORIES.append(self)
        self.g = z3.Function(name, *(list(sorts) + [I, I]))
        self.o = z3.Function(name + '+', *(list(sorts) + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
        m, n = z3.Int('m!' + name), z3.Int('n!' + name)
        g, o = lambda k: self.g(*(xs + [k])), lambda k: self.o(*(xs + [k]))
        z = lambda k: z3.If(size(*(xs + [k])) > 0, size(*(xs + [k])), 0)
        A = lambda vs, b, pat: z3.ForAll(xs + vs, b, patterns=[pat])
        M.OPAQUE[name] = [
            A([n], z3.And(z3.Implies(n <= 0, z3.And(g(n) == 0, o(n) == 0)), g(n) >= 0, z3.Implies(n >= 0, g(n) <= n), o(n) >= 0), g(n)),
            A([n], o(n) >= 0, o(n)),
            A([m, n], z3.Implies(z3.And(m >= 0, n == m + 1), z3.If(
                same(*(xs + [n])), z3.And(g(n) == g(m), o(n) == o(m) + z(m)), z3.And(g(n) == g(m) + 1, o(n) == 0))),
                z3.MultiPattern(g(m), g(n))),
            A([m, n], z3.Implies(z3.And(m >= 0, m < n), z3.And(g(m) <= g(n), z3.Implies(g(m) == g(n), o(m) + z(m) <= o(n)))),
                z3.MultiPattern(g(m), g(n)))]

    def group(self, *a):
        return self.g(*a)

    def off(self, *a):
        return self.o(*a)


_content = z3.Function('rs:content', I, M.SeqS, M.V)
clen = z3.Function('rs:content length', M.V, I)
cnth = z3.Function('rs:content element', M.V, I, M.V)


def _content_axioms():
    n, j = z3.Ints('n!ct j!ct')
    s, t = z3.Consts('s!ct t!ct', M.SeqS)
    c = _content
    d = z3.Function('content differs', I, M.SeqS, M.SeqS, I)
    k = d(n, s, t)
    return [
        z3.ForAll([n, s], z3.Implies(n >= 0, clen(c(n, s)) == n), patterns=[c(n, s)]),
        z3.ForAll([z3.Const('v!ct', M.V)], clen(z3.Const('v!ct', M.V)) >= 0, patterns=[clen(z3.Const('v!ct', M.V))]),
        z3.ForAll([n, s, j], z3.Implies(z3.And(j >= 0, j < n), cnth(c(n, s), j) == z3.Select(s, j)),
                  patterns=[cnth(c(n, s), j), z3.MultiPattern(c(n, s), z3.Select(s, j))]),
        z3.ForAll([n, s, t], z3.Or(c(n, s) == c(n, t), z3.And(k >= 0, k < n, z3.Select(s, k) != z3.Select(t, k))),
                  patterns=[z3.MultiPattern(c(n, s), c(n, t))])]


M.OPAQUE['rs:content'] = _content_axioms()


def content(H, l):
    """the elements of list l, as a value"""
    return _content(H.llen(l), H.lseq(l))


_digest = z3.Function('rs:digest', I, M.SeqS, M.comp_sort('ll'), M.comp_sort('le'), M.V)


def _digest_axioms():
    n, m, j = z3.Ints('n!dg m!dg j!dg')
    s, t = z3.Consts('s!dg t!dg', M.SeqS)
    ll, l2 = z3.Consts('ll!dg l2!dg', M.comp_sort('ll'))
    le, e2 = z3.Consts('le!dg e2!dg', M.comp_sort('le'))
    d = _digest
    a, b = d(n, s, ll, le), d(m, t, l2, e2)
    k = z3.Function('digest differs', M.V, M.V, I)(a, b)
    l = M.V.r(M.V.t2b(z3.Select(s, j)))
    el = M.V.t2(M.V.t2a(z3.Select(s, j)), _content(z3.Select(ll, l), z3.Select(le, l)))
    return [
        z3.ForAll([n, s, ll, le], z3.Implies(n >= 0, clen(a) == n), patterns=[a]),
        z3.ForAll([n, s, ll, le, j], z3.Implies(z3.And(j >= 0, j < n), cnth(a, j) == el),
                  patterns=[cnth(a, j), z3.MultiPattern(a, z3.Select(s, j))]),
        z3.ForAll([n, s, ll, le, m, t, l2, e2], z3.Implies(n == m, z3.Or(a == b, z3.And(
            k >= 0, k < n, cnth(a, k) != cnth(b, k)))), patterns=[z3.MultiPattern(a, b)])]


M.OPAQUE['rs:digest'] = _digest_axioms()


def digest(H, l):
    """names and contents of a list of pairs (name, list), as a value"""
    return _digest(H.llen(l), H.lseq(l), H.comp('ll'), H.comp('le'))


class Rec(object):
    """rec(*args, 0) = init(*args); rec(*args, k+1) = step(*args, k, rec(*args, k)), never less than rec(*args, k)"""

    def __init__(self, name, sorts, init, step):
        self.name, self.sorts, self.par = name, list(sorts), (init, step,)
        THEORIES.append(self)
        self.f = z3.Function(name, *(list(sorts) + [I, I]))
        xs = [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
        m, n = z3.Int('m!' + name), z3.Int('n!' + name)
        f = lambda k: self.f(*(xs + [k]))
        A = lambda vs, b, pat: z3.ForAll(xs + vs, b, patterns=[pat])
        M.OPAQUE[name] = [
            A([n], z3.Implies(n == 0, f(n) == init(*xs)), f(n)),
            A([m, n], z3.Implies(z3.And(m >= 0, n == m + 1), f(n) == step(*(xs + [m, f(m)]))), z3.MultiPattern(f(m), f(n))),
            A([m, n], z3.Implies(z3.And(m >= 0, m < n), f(m) <= f(n)), z3.MultiPattern(f(m), f(n)))]

    def __call__(self, *a):
        return self.f(*a)


_mark = z3.Function('rs:mark', I, z3.BoolSort())
M.OPAQUE['rs:mark'] = [z3.ForAll([z3.Int('i!mk')], _mark(z3.Int('i!mk')), patterns=[_mark(z3.Int('i!mk'))])]


def somewhere(body, *pats):
    """some index satisfies body; known indexes are tried as witnesses"""
    return M.exists(1, lambda i: M.And(_mark(i), body(i)), [I], pats=lambda i: [_mark(i)] + [p(i) for p in pats])


_haskey = z3.Function('haskey', I, M.SeqS, M.V, z3.BoolSort())


def _haskey_axioms():
    n, m, j = z3.Ints('n!hk m!hk j!hk')
    s = z3.Const('s!hk', M.SeqS)
    x, v = z3.Consts('x!hk v!hk', M.V)
    w = z3.Function('indexof', I, M.SeqS, M.V, I)
    h = _haskey
    st = z3.Store(s, m, v)
    return [
        z3.ForAll([n, s, x], z3.Implies(h(n, s, x), z3.And(w(n, s, x) >= 0, w(n, s, x) < n, M.V.t2a(
            z3.Select(s, w(n, s, x))) == x)), patterns=[h(n, s, x)]),
        z3.ForAll([n, s, x, j], z3.Implies(z3.And(j >= 0, j < n, M.V.t2a(z3.Select(s, j)) == x), h(n, s, x)),
                  patterns=[z3.MultiPattern(h(n, s, x), z3.Select(s, j))]),
        z3.ForAll([n, m, s, x, v], z3.Implies(z3.And(m >= 0, n == m + 1), h(n, st, x) == z3.Or(h(m, s, x), M.V.t2a(v) == x)),
                  patterns=[h(n, st, x)])]


M.OPAQUE['haskey'] = _haskey_axioms()


def listed(H, l, x, n=None):
    """some element of list l (its first n) is a pair with first component x"""
    return _haskey(H.llen(l) if n is None else n, H.lseq(l), x)
