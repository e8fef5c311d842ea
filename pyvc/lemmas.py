"""Proofs that the axioms of the specification functions follow from their definitions.

The definitions are recursive equations (or the characterisation of a least
index, which exists by well-ordering of the naturals).  The induction steps
are explicit: base and step are separate quantifier-free obligations over the
axioms as they stand in M.OPAQUE, instantiated with constants.
"""
import z3

from . import model as M
from . import theory as TH

I = M.I
imp, conj, neg = z3.Implies, z3.And, z3.Not


def inst(ax, *vals):
    """body of a quantified axiom at the values"""
    assert ax.num_vars() == len(vals)
    return z3.substitute_vars(ax.body(), *reversed(vals))


class Proof(object):
    def __init__(self):
        self.obls = []

    def show(self, label, hyps, goal):
        self.obls.append((label, list(hyps), goal))

    def induct(self, label, P, defs, start, hyps=()):
        """P(n) for all integers n >= start, by induction; defs(n): definitions at n"""
        n = z3.Int('n!ind')
        self.show(label + ' (base)', list(hyps) + defs(start), P(start))
        self.show(label + ' (step)', list(hyps) + defs(n) + [n >= start, P(n)], P(n + 1))


def consts(th):
    return [z3.Const('c%d' % i, s) for i, s in enumerate(th.sorts)]


def p_sum(th, p):
    xs = consts(th)
    m, n = z3.Ints('m!l n!l')
    f = lambda k: th.f(*(xs + [k]))
    t = lambda k: z3.If(th.par[0](*(xs + [k])) > 0, th.par[0](*(xs + [k])), 0)
    D = lambda k: [imp(k <= 0, f(k) == 0), imp(k >= 0, f(k + 1) == f(k) + t(k))]
    a, b, c = M.OPAQUE[th.name]
    P = lambda n: inst(a, *(xs + [n]))
    p.show('sum below zero', D(n) + [n <= 0], P(n))
    p.induct('sum is not negative', P, D, z3.IntVal(0))
    p.show('sum equation', D(m), inst(b, *(xs + [m, n])))
    Q = lambda n: inst(c, *(xs + [m, n]))
    p.show('sum grows (below)', [n <= m], Q(n))
    p.induct('sum grows', Q, lambda k: D(k) + D(m), m + 1)


def p_least(th, p):
    xs = consts(th)
    n, j, w = z3.Ints('n!l j!l w!l')
    f = th.f(*(xs + [n]))
    pred = lambda k: th.par[0](*(xs + [k]))
    # definition: the least index below n that satisfies pred, else n
    D = lambda k: [imp(n >= 0, conj(f >= 0, f <= n)), imp(n < 0, f == n), imp(f < n, pred(f)),
                   imp(conj(k >= 0, k < f), neg(pred(k)))]
    a, b = M.OPAQUE[th.name]
    p.show('least index', D(w), inst(a, *(xs + [n])))
    p.show('least index is below', D(j), inst(b, *(xs + [n, j])))


def p_last(th, p):
    xs = consts(th)
    n, j, w = z3.Ints('n!l j!l w!l')
    f = th.f(*(xs + [n]))
    pred = lambda k: th.par[0](*(xs + [k]))
    # definition: the last index below n that satisfies pred, else -1
    D = lambda k: [imp(n >= 0, conj(f >= -1, imp(n == 0, f == -1), imp(n > 0, f < n))), imp(f >= 0, pred(f)),
                   imp(conj(k > f, k >= 0, k < n), neg(pred(k)))]
    a, b = M.OPAQUE[th.name]
    p.show('last index', D(w), inst(a, *(xs + [n])))
    p.show('last index is not before', D(j), inst(b, *(xs + [n, j])))


def p_filter(th, p):
    xs = consts(th)
    m, n, k = z3.Ints('m!l n!l k!l')
    f, g = (lambda k: th.f(*(xs + [k]))), (lambda k: th.g(*(xs + [k])))
    pr = lambda k: th.par[0](*(xs + [k]))
    D = lambda k: [imp(k <= 0, f(k) == 0), imp(k >= 0, f(k + 1) == f(k) + z3.If(pr(k), 1, 0))]
    a, b, c, d = M.OPAQUE[th.name]
    # the count is between 0 and n
    R = lambda n: conj(f(n) >= 0, f(n) <= n)
    p.induct('count is bounded', R, D, z3.IntVal(0))
    p.show('count equation', D(m), inst(b, *(xs + [m, n])))
    Q = lambda n: inst(c, *(xs + [m, n]))
    p.induct('count grows', Q, lambda k: D(k) + D(m), m + 1)
    # nth(i) is an index k with pred(k) and count(k) = i, if there is one (definition by choice; it is unique):
    G = lambda i, k: imp(conj(k >= 0, pr(k), f(k) == i), conj(g(i) >= 0, pr(g(i)), f(g(i)) == i))
    uniq = lambda k, l: inst(c, *(xs + [k, l]))
    p.show('count below zero, and nth of a kept element', D(n) + [imp(n >= 0, R(n)), G(f(n), n), uniq(n, g(f(n))), uniq(g(f(n)), n)],
           inst(a, *(xs + [n])))
    # every number below the count is the number of a kept element: k(n) is that element
    e = z3.Function('kept number', I, I)
    E = lambda n, k: imp(conj(m >= 0, m < f(n)), conj(k >= 0, k < n, pr(k), f(k) == m))
    p.show('numbers are taken (base)', D(z3.IntVal(0)), E(z3.IntVal(0), z3.IntVal(0)))
    # in the step the witness is that of n or n itself
    p.show('numbers are taken (step)', D(n) + [n >= 0, E(n, k)], z3.Or(E(n + 1, k), E(n + 1, n)))
    p.show('nth', [imp(n >= 0, E(n, k)), G(m, k), uniq(k, g(m)), uniq(g(m), k)] + D(n), inst(d, *(xs + [m, n])))


def p_groups(th, p):
    xs = consts(th)
    m, n = z3.Ints('m!l n!l')
    g, o = (lambda k: th.g(*(xs + [k]))), (lambda k: th.o(*(xs + [k])))
    same, size = [lambda k, q=q: q(*(xs + [k])) for q in th.par]
    z = lambda k: z3.If(size(k) > 0, size(k), 0)
    D = lambda k: [imp(k <= 0, conj(g(k) == 0, o(k) == 0)), imp(k >= 0, z3.If(
        same(k + 1), conj(g(k + 1) == g(k), o(k + 1) == o(k) + z(k)), conj(g(k + 1) == g(k) + 1, o(k + 1) == 0)))]
    a, b, c, d = M.OPAQUE[th.name]
    for label, ax in (('groups are bounded', a), ('offsets are not negative', b)):
        P = lambda n: inst(ax, *(xs + [n]))
        p.show(label + ' (below)', D(n) + [n <= 0], P(n))
        ok = lambda n: conj(inst(a, *(xs + [n])), P(n))
        p.induct(label, ok, D, z3.IntVal(0))
    p.show('group equation', D(m), inst(c, *(xs + [m, n])))
    off = lambda k: imp(k >= 0, o(k) >= 0)
    Q = lambda n: inst(d, *(xs + [m, n]))
    p.induct('groups grow', Q, lambda k: D(k) + D(m) + [off(k), off(m), off(k + 1)], m + 1)


def p_rec(th, p):
    xs = consts(th)
    m, n, t = z3.Ints('m!l n!l t!l')
    f = lambda k: th.f(*(xs + [k]))
    init, step = th.par
    D = lambda k: [imp(k == 0, f(k) == init(*xs)), imp(k >= 0, f(k + 1) == step(*(xs + [k, f(k)])))]
    a, b, c = M.OPAQUE[th.name]
    p.show('start', D(n), inst(a, *(xs + [n])))
    p.show('step equation', D(m), inst(b, *(xs + [m, n])))
    p.show('a step does not go back', [m >= 0], step(*(xs + [m, t])) >= t)
    up = lambda k: step(*(xs + [k, f(k)])) >= f(k)      # instance of the above
    Q = lambda n: inst(c, *(xs + [m, n]))
    p.induct('steps do not go back', Q, lambda k: D(k) + D(m) + [imp(k >= 0, up(k)), imp(m >= 0, up(m))], m + 1)


def p_first(p):
    """least index of a value in the first n elements"""
    f = TH._first
    n, m, j = z3.Ints('n!l m!l j!l')
    s = z3.Const('s!l', M.SeqS)
    x, v = z3.Consts('x!l v!l', M.V)
    a, b, c, d = M.OPAQUE['seqfirst']

    def D(n, s, *ks):
        t = f(n, s, x)
        return [imp(n >= 0, conj(t >= 0, t <= n)), imp(n < 0, t == n), imp(t < n, z3.Select(s, t) == x)] + [
            imp(conj(k >= 0, k < t), z3.Select(s, k) != x) for k in ks]
    p.show('first index', D(n, s), inst(a, n, s, x))
    p.show('first index is below', D(n, s, j), inst(b, n, s, x, j))
    st = z3.Store(s, m, v)
    o, q = f(m, s, x), f(n, st, x)
    p.show('first index after appending', D(n, st, o, m) + D(m, s, q), inst(c, n, m, s, x, v))
    o, q = f(m, s, x), f(n, s, x)
    p.show('first index of a prefix', D(n, s, o) + D(m, s, q), inst(d, n, m, s, x))


def p_haskey(p):
    h, w = TH._haskey, z3.Function('indexof', I, M.SeqS, M.V, I)
    n, m, j = z3.Ints('n!l m!l j!l')
    s = z3.Const('s!l', M.SeqS)
    x, v = z3.Consts('x!l v!l', M.V)
    a, b, c = M.OPAQUE['haskey']
    at = lambda s, k: M.V.t2a(z3.Select(s, k))

    def D(n, s, *ks):
        # definition: some index below n has x; w is one
        k = w(n, s, x)
        return [imp(h(n, s, x), conj(k >= 0, k < n, at(s, k) == x))] + [
            imp(conj(k >= 0, k < n, at(s, k) == x), h(n, s, x)) for k in ks]
    p.show('listed', D(n, s), inst(a, n, s, x))
    p.show('listed at', D(n, s, j), inst(b, n, s, x, j))
    st = z3.Store(s, m, v)
    p.show('listed after appending', D(n, st, w(m, s, x), m) + D(m, s, w(n, st, x)), inst(c, n, m, s, x, v))


def p_owner(th, p):
    xs = consts(th)
    i, j, k, n = z3.Ints('i!l j!l k!l n!l')
    of = th.of
    f, w, has = (lambda a: of.f(*(xs + [a]))), (lambda a: th.f(*(xs + [a]))), (lambda a: th.has(xs, a, k))
    t = lambda a: of.par[0](*(xs + [a]))
    pos = lambda a: z3.If(t(a) > 0, t(a), 0)
    # definition by choice: an index whose segment has k, if there is one
    G = lambda a: imp(has(a), has(w(k)))
    grow = lambda a, b: imp(conj(a >= 0, a < b), f(a) + pos(a) <= f(b))       # of the sum
    p.show('segments are disjoint', [grow(i, j), grow(j, i)], imp(conj(has(i), has(j)), i == j))
    uniq = lambda a, b: imp(conj(has(a), has(b)), a == b)
    a, b = M.OPAQUE[th.name]
    p.show('owner', [G(i), uniq(i, w(k))], inst(b, *(xs + [i, k])))
    D = lambda a: [imp(a <= 0, f(a) == 0), imp(a >= 0, f(a + 1) == f(a) + pos(a))]
    E = lambda n, e: imp(conj(k >= 0, k < f(n)), conj(e < n, has(e)))
    p.show('each has an owner (base)', D(z3.IntVal(0)), E(z3.IntVal(0), z3.IntVal(0)))
    p.show('each has an owner (step)', D(n) + [n >= 0, E(n, j)], z3.Or(E(n + 1, j), E(n + 1, n)))
    p.show('owner is below', [imp(n >= 0, E(n, j)), G(j), uniq(j, w(k))], inst(a, *(xs + [n, k])))


PROOFS = {TH.Owner: p_owner, TH.Sum: p_sum, TH.Least: p_least, TH.Last: p_last, TH.Filter: p_filter, TH.Groups: p_groups, TH.Rec: p_rec}


def obligations():
    """-> list of (label, hypotheses, goal, names of the theories that may be used)"""
    out = []
    own = [('seqfirst', p_first), ('haskey', p_haskey)] + [(th.name, lambda p, th=th: PROOFS[type(th)](th, p)) for th in TH.THEORIES]
    later = [n for n, _ in own]
    for name, prove in own:
        p = Proof()
        prove(p)
        # never the axioms to prove, or those of a later theory
        names = [n for n in M.OPAQUE if n not in later]
        out += [('%s: %s' % (name, l), h, g, names) for l, h, g in p.obls]
        later.remove(name)
    return out
