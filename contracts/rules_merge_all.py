"""Contract of merging a list of rules dicts (sources/rules_dict.py; P04)."""
import z3
from contracts.rules_merge import *
from pyvc.theory import Last

I = M.I
DM = M.comp_sort('dm')
# rule found in the merged rules R, and in one of the sources (default installer df of os o)
KV = M.opaque('KV', [M.V] * 5, lambda H, R, x, o, v, i: Ite(H.has(R, x), oview_(H, H.get(R, x), o, v, i), ABSENT))
KN = M.opaque('KN', [M.V] * 6, lambda H, s, x, o, v, df, i: Ite(H.has(s, x), noview_(H, H.get(s, x), o, v, df, i), ABSENT))
AD = M.opaque('AD', [M.V] * 2, lambda H, s, x: And(H.has(s, x), any_os_default(H, H.get(s, x))), z3.BoolSort())
_srcat = z3.Function('rs:source from the end', M.SeqS, I, I, M.V)
_q = (z3.Const('s!sa', M.SeqS), z3.Const('n!sa', I), z3.Const('j!sa', I))
M.OPAQUE['rs:source from the end'] = [z3.ForAll(list(_q), _srcat(*_q) == z3.Select(_q[0], _q[1] - 1 - _q[2]), patterns=[_srcat(*_q)])]


def _kn(dm, s, n, x, o, v, df, i, j):
    return KN(M.Heap(dict(dm=dm), z3.IntVal(0)), _srcat(s, n, j), x, o, v, df, i)


last = Last('rs:last source with rule', [DM, M.SeqS, I] + [M.V] * 5, lambda *a: _kn(*a) != ABSENT, _kn)


def ok(j, n):
    return And(j >= 0, j < n)


def parts(c):
    """sources, their number, default installers"""
    l = c.a.rules_dict_list
    return c.pre.lseq(l), c.pre.llen(l), c.a.default_installers


def found(c, x, o, v, i, p):
    """rule of the last one of the p sources from the end which has one: the first in the list"""
    s, n, defs = parts(c)
    a = (c.pre.comp('dm'), s, n, x, o, v, c.pre.get(defs, o), i)
    w = last(*(a + (p,)))
    return Ite(w >= 0, _kn(*(a + (w,))), ABSENT)


def forest(H, R, a0):
    """merged rules: trees of new dictionaries"""
    X = lambda x: H.get(R, x)
    O = lambda x, o: H.get(X(x), o)
    W = lambda x, o, v: H.get(O(x, o), v)
    node = lambda t, d, k: And(H.isdict(t), H.islive(t), H.owned(d, k), M.rid(t) >= a0)
    return [('unowned', And(H.par(R) == -1, M.rid(R) >= a0)),
            ('keys', M.forall(1, lambda x: Imp(H.has(R, x), And(node(X(x), R, x), X(x) != R, Imp(H.has(X(x), AO), H.has(O(x, AO), AV)))), lambda x: [X(x)])),
            ('oses', M.forall(2, lambda x, o: Imp(And(H.has(R, x), H.has(X(x), o)), node(O(x, o), X(x), o)), lambda x, o: [O(x, o)])),
            ('versions', M.forall(3, lambda x, o, v: Imp(And(H.has(R, x), H.has(X(x), o), H.has(O(x, o), v)), node(W(x, o, v), O(x, o), v)), lambda x, o, v: [
                W(x, o, v)]))]


@contract
class merge_rules(Contract):
    key = RD + 'merge_rules'
    types = {'rules_dict_list': 'list[dict]', 'default_installers': 'dict'}
    result = 'dict'

    def bad(c, j):
        s = c.pre.at(c.a.rules_dict_list, j)
        return M.exists(1, lambda x: And(c.pre.has(s, x), any_os_di(c.pre, c.pre.get(s, x))), pats=lambda x: [c.pre.get(s, x)])
    raises = {'ValueError': lambda c: M.exists(1, lambda j: And(ok(j, c.pre.llen(c.a.rules_dict_list)), merge_rules.bad(c, j)), [I])}

    def requires(c):
        G, l, defs = c.pre, c.a.rules_dict_list, c.a.default_installers
        src = lambda j: G.at(l, j)
        return [('defaults', And(defaults_ok(G, defs), G.par(defs) == -1)),
                ('sources', c.forall(2, lambda j, x: Imp(And(ok(j, G.llen(l)), G.has(src(j), x)), And(G.isdict(G.get(src(j), x)), input3(G, G.get(
                    src(j), x), defs))), lambda j, x: [G.get(src(j), x)], [I, M.V]))]

    def filtered(c, H, R):
        return ('os filter', c.forall(2, lambda x, o: Imp(And(H.has(R, x), H.has(H.get(R, x), o)), Or(o == AO, c.pre.has(
            c.a.default_installers, o))), lambda x, o: [H.get(H.get(R, x), o)]))

    def views(c, H, R, p):
        return ('views', c.forall(4, lambda x, o, v, i: Imp(c.pre.has(c.a.default_installers, o), KV(H, R, x, o, v, i) == found(
            c, x, o, v, i, p)), lambda x, o, v, i: [KV(H, R, x, o, v, i)]))

    def accepted(c, p):
        s, n, defs = parts(c)
        return [('no default for any os', c.forall(2, lambda j, x: Imp(ok(j, p), Not(AD(c.pre, _srcat(s, n, j), x))), lambda j, x: [
            AD(c.pre, _srcat(s, n, j), x)], [I, M.V]))]

    def inv0(c):
        H, R = c.h, c.l('combined_rules')
        s, n, defs = parts(c)
        return forest(H, R, c.pre.alloc) + [merge_rules.filtered(c, H, R), merge_rules.views(c, H, R, c.idx)] + merge_rules.accepted(c, c.idx)

    def inv1(c):
        H, E, R, src = c.h, c.entry, c.l('combined_rules'), c.l('rules')
        s, n, defs = parts(c)
        P = c.pre
        struct = ['assert:other', 'post:', 'frame', 'loop1:inv:unowned', 'loop1:inv:keys', 'loop1:inv:oses', 'loop1:inv:versions', 'wf']
        return [x + (struct,) for x in forest(H, R, c.pre.alloc)] + [
            merge_rules.filtered(c, H, R),
            ('views', c.forall(4, lambda x, o, v, i: Imp(P.has(defs, o), KV(H, R, x, o, v, i) == over(Ite(c.done(x), KN(
                P, src, x, o, v, P.get(defs, o), i), ABSENT), KV(E, R, x, o, v, i))), lambda x, o, v, i: [KV(H, R, x, o, v, i)]), ['assert:view', 'loop1:inv:views']),
            ('no default for any os', c.forall(1, lambda x: Imp(c.done(x), Not(AD(P, src, x))), lambda x: [c.done(x), AD(P, src, x)]))]

    def hint1(c):
        H, E, S, k = c.h, c.entry, c.hs, c.k
        R, src = c.l('combined_rules'), c.l('rules')
        s, n, defs = parts(c)
        P = c.pre
        X = lambda h, x: h.get(R, x)
        vw = lambda h, x, o, v, i: KV(h, R, x, o, v, i)
        other = lambda x, o: And(x != k, S.has(R, x), S.has(X(S, x), o))
        D = P.get(src, k)
        struct = ['assert:', 'frame', 'loop1:inv:unowned', 'loop1:inv:keys', 'loop1:inv:oses', 'loop1:inv:versions', 'wf']
        new = lambda o, v, i: KN(P, src, k, o, v, P.get(defs, o), i)
        return [('other key', c.forall(1, lambda x: Imp(x != k, X(H, x) == X(S, x)), lambda x: [X(H, x)])),
                ('other os', c.forall(1, lambda x: Imp(And(x != k, S.has(R, x)), H.dmap(X(S, x)) == S.dmap(X(S, x))), lambda x: [H.dmap(X(S, x))]), struct),
                ('other versions', c.forall(2, lambda x, o: Imp(other(x, o), H.dmap(S.get(X(S, x), o)) == S.dmap(S.get(X(S, x), o))), lambda x, o: [
                    S.get(X(S, x), o)]), struct),
                ('other installers', c.forall(3, lambda x, o, v: Imp(And(other(x, o), S.has(S.get(X(S, x), o), v)), H.dmap(S.get(S.get(X(
                    S, x), o), v)) == S.dmap(S.get(S.get(X(S, x), o), v))), lambda x, o, v: [S.get(S.get(X(S, x), o), v)]), struct),
                ('views of others', c.forall(4, lambda x, o, v, i: Imp(x != k, vw(H, x, o, v, i) == vw(S, x, o, v, i)), lambda x, o, v, i: [
                    vw(H, x, o, v, i)]), ['assert:', 'loop1:inv:keys', 'def:']),
                ('input unchanged', And(S.dmap(src) == P.dmap(src), S.dmap(defs) == P.dmap(defs), S.dmap(D) == P.dmap(D), c.forall(1, lambda o: Imp(
                    P.has(D, o), S.dmap(P.get(D, o)) == P.dmap(P.get(D, o))), lambda o: [P.get(D, o)]), c.forall(2, lambda o, v: Imp(And(Or(o == AO, P.has(defs, o)), P.has(
                        D, o), P.has(P.get(D, o), v)), S.dmap(P.get(P.get(D, o), v)) == P.dmap(P.get(P.get(D, o), v))), lambda o, v: [P.get(P.get(D, o), v)]))),
                ('any os entry', And(AD(P, src, k) == any_os_default(P, D), any_os_default(S, D) == any_os_default(P, D))),
                ('input view', c.forall(3, lambda o, v, i: Imp(P.has(defs, o), noview_(S, D, o, v, P.get(defs, o), i) == new(o, v, i)), lambda o, v, i: [
                    new(o, v, i)]), ['assert:', 'def:', 'has']),
                ('view of this', c.forall(3, lambda o, v, i: Imp(P.has(defs, o), vw(H, k, o, v, i) == over(new(o, v, i), vw(S, k, o, v, i))), lambda o, v, i: [
                    vw(H, k, o, v, i)]), ['assert:input', 'post:', 'frame', 'loop1:inv:unowned', 'loop1:inv:keys', 'def:KV', 'def:KN', 'def:OV', 'def:ON', 'def:A'])]

    def hint0(c):
        s, n, defs = parts(c)
        p, P, R = c.idx - 1, c.pre, c.l('combined_rules')
        kn = lambda x, o, v, i: _kn(P.comp('dm'), s, n, x, o, v, P.get(defs, o), i, p)
        trig = lambda x, o, v, i: [KV(c.h, R, x, o, v, i)]
        return [('this source', c.forall(4, lambda x, o, v, i: Imp(P.has(defs, o), KV(c.h, R, x, o, v, i) == over(kn(x, o, v, i), KV(
                    c.hs, R, x, o, v, i))), trig)),
                ('one more source', c.forall(4, lambda x, o, v, i: found(c, x, o, v, i, c.idx) == over(kn(x, o, v, i), found(
                    c, x, o, v, i, p)), trig), ['def:rs', 'index'])]
    loops = {0: staticmethod(inv0), 1: staticmethod(inv1)}
    loophints = {0: staticmethod(hint0), 1: staticmethod(hint1)}

    def ensures(c):
        return forest(c.post, c.res, c.alloc0) + [merge_rules.filtered(c, c.post, c.res), merge_rules.views(c, c.post, c.res, parts(c)[1])] + merge_rules.accepted(c, parts(c)[1])
