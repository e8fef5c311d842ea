"""Contracts for installer rules and resolutions (installer_base.py; P08).

A rule is parsed by the installer's description of rules, whose items `packages` and `depends` are lists.
"""
import types
from contracts.config_desc import *
from contracts.rules_merge import hashable
from pyvc import types as T

IB = 'xylem.installers.installer_base:'
IRE = 'InvalidRuleError'
PK, DP, PKG, KEYS = [STR(x) for x in ('packages', 'depends', 'package', '_to_list_keys')]
db.interface['InstallerBase'] = {'props': {'name': 'str'}}
db.fields['InstallerBase'] = {'installer_rule_description': 'ConfigDescription'}
db.fields['Resolution'] = {'package': 'any', '_to_list_keys': 'any'}
db.fields['ConfigDict'].update(packages='list', depends='list')


# ------------------------------------------------------------------ resolutions
MS = M.MapS
_deq = z3.Function('deq', DM, M.comp_sort('ll'), M.comp_sort('le'), M.V, M.V, SB)
_kh = z3.Function('rs:hash of keys', MS, I)
_ph = z3.Function('pyhash', M.V, I)
_th = z3.Function('rs:hash of three', I, I, I, I)
_m = (z3.Const('m!h1', MS), z3.Const('m!h2', MS))
_k = z3.Const('k!h', M.V)
_set = lambda m: z3.Select(m, _k) != ABSENT
M.OPAQUE['rs:hash of keys'] = [z3.ForAll(list(_m), Imp(z3.ForAll([_k], _set(_m[0]) == _set(_m[1])), _kh(_m[0]) == _kh(_m[1])), patterns=[
    z3.MultiPattern(_kh(_m[0]), _kh(_m[1]))])]


def veq(H, v, w):
    """the values are equal"""
    return _deq(H.comp('dm'), H.comp('ll'), H.comp('le'), v, w)


def same_entries(H, a, b):
    return And(M.forall(1, lambda k: H.has(a, k) == H.has(b, k), lambda k: [H.get(a, k), H.get(b, k)]),
               M.forall(1, lambda k: Imp(H.has(a, k), veq(H, H.get(a, k), H.get(b, k))), lambda k: [H.get(a, k)]))


def h_dict_eq(ex, st, args, kw, X, node):
    """equality of dictionaries by their entries; equal values have equal hashes, if they have one"""
    a, b = [ex.sv(st, x) for x in args]
    if not (b.ty[0] == 'dict' or b.ty[0] == 'obj' and b.ty[1] in T.DICT_CLASSES):
        raise M.Unsupported('dict.__eq__ with another value')
    H = st.H
    r = M.fconst('eq', SB)
    st.assume(r == same_entries(H, a.t, b.t))
    st.assume(M.forall(1, lambda k: Imp(And(veq(H, H.get(a.t, k), H.get(b.t, k)), hashable(H.get(a.t, k)), hashable(H.get(b.t, k))), _ph(H.get(a.t, k)) == _ph(
        H.get(b.t, k))), lambda k: [H.get(a.t, k)]))
    return [(st, ex.bsv(r))]


def h_hash(ex, st, args, kw, X, node):
    """hash of a value, of a set (by its elements) or of a tuple of three of these"""
    v = args[0]
    if isinstance(v, E.SV) and v.ty[0] == 'tuple':
        v = E.StaticSeq([E.SV(M.tup_at(v.t, len(v.ty[1]), i), t) for i, t in enumerate(v.ty[1])])
    if isinstance(v, E.StaticSeq) and len(v.items) == 3:
        hs = []
        for x in v.items:
            nxt = h_hash(ex, st, [x], kw, X, node)
            if not nxt:
                return []
            st, h = nxt[0]
            hs.append(M.V.i(h.t))
        return [(st, ex.isv(_th(*hs)))]
    if isinstance(v, E.StaticSeq):
        raise M.Unsupported('hash of tuple')
    v = ex.sv(st, v)
    if v.ty[0] == 'set':
        return [(st, ex.isv(_kh(st.H.dmap(v.t))))]
    st = ex.need(st, hashable(v.t), X, 'TypeError')
    return [] if st is None else [(st, ex.isv(_ph(v.t)))]


db.externals['dict.__eq__'] = h_dict_eq
db.externals['builtins.hash'] = h_hash


@contract
class res_eq(Contract):
    key = IB + 'Resolution.__eq__'
    types = {'self': 'Resolution', 'other': 'Resolution'}
    result = 'bool'
    inline = True

    def ensures(c):
        return [('equal entries', (c.res == M.vbool(True)) == same_entries(c.pre, c.a.self, c.a.other))]


def package(c):
    return given(c.pre.get(c.a.self, PKG))


@contract
class res_hash(Contract):
    key = IB + 'Resolution.__hash__'
    types = {'self': 'Resolution'}
    result = 'int'
    raises = {'TypeError': lambda c: Not(hashable(package(c)))}
    inline = True


db.clients['verif.resolutions'] = '''
from xylem.installers.installer_base import Resolution


def hashes(a, b):
    return a.__eq__(b), a.__hash__() == b.__hash__()
'''


@contract
class hashes(Contract):
    key = 'verif.resolutions:hashes'
    types = {'a': 'Resolution', 'b': 'Resolution'}
    result = 'tuple[bool,bool]'

    def requires(c):
        t = z3.Function('typeof', M.V, I)
        return [('plain resolutions', And(t(c.a.a) == t(c.a.b), *[hashable(given(c.pre.get(x, PKG))) for x in (c.a.a, c.a.b)]))]

    def ensures(c):
        e, h = M.tup_at(c.res, 2, 0), M.tup_at(c.res, 2, 1)
        return [('equal by entries', (e == M.vbool(True)) == same_entries(c.pre, c.a.a, c.a.b)), ('equal hashes', Imp(e == M.vbool(True), h == M.vbool(True)))]


# ------------------------------------------------------------------ rules
def ruledesc(c):
    return c.pre.field(c.a.self, 'installer_rule_description')


def listitem(G, d, n):
    it = G.field(d, 'items')
    return And(G.has(it, n), typed(G, itype(G, d, n), 'List'), Not(merging(G, itype(G, d, n))), typed(G, G.field(G.get(it, n), 'default'), 'list'), Not(slash(n)))


def describes(c):
    d = ruledesc(c)
    return wfdesc(c, c.pre, d) + [('packages and dependencies', And(listitem(c.pre, d, PK), listitem(c.pre, d, DP)))]


def asdata(c, **kw):
    d = dict(c.__dict__, a=types.SimpleNamespace(data=c.a.installer_rule, description=ruledesc(c), use_defaults=M.vbool(True)), **kw)
    return E.Ctx(**d)


def malformed(c):
    return parsed.refused(asdata(c))


class Rule(Contract):
    types = {'self': 'InstallerBase', 'installer_rule': 'any'}
    raises = {IRE: malformed}

    def requires(c):
        return describes(c)


@contract
class parse_rule(Rule):
    key = IB + 'InstallerBase._parse_installer_rule'
    result = 'ConfigDict'

    def content(c, H, s):
        return parsed.ensures(asdata(c, post=H, res=s)) + [(name, And(H.has(s, n), H.islist(H.get(s, n)))) for name, n in (('packages', PK), ('depends', DP))]

    def ensures(c):
        return parse_rule.content(c, c.post, c.res)


@contract
class depends(Rule):
    key = IB + 'InstallerBase.get_depends'
    result = 'list'

    def ensures(c):
        m = c.call('InstallerBase._parse_installer_rule')
        return [('rule: ' + l, b) for l, b in parse_rule.content(c, m.post, m.res)] + [('dependencies', c.res == m.post.get(m.res, DP))]


@contract
class resolve(Rule):
    key = IB + 'InstallerBase.resolve'
    result = 'list[Resolution]'

    def parts(c):
        m = c.call('InstallerBase._parse_installer_rule')
        return m.post, m.res, m.post.get(m.res, PK)

    def each(c, H, r, n):
        P, s, v = resolve.parts(c)
        x = lambda j: H.at(r, j)
        return [('number', H.llen(r) == n),
                ('new', c.forall(1, lambda j: Imp(ok(j, n), And(typed(H, x(j), 'Resolution'), M.rid(x(j)) >= c.pre.alloc, x(j) != s)), lambda j: [x(j)], [I])),
                ('different', c.forall(2, lambda i, j: Imp(And(ok(i, n), ok(j, n), i != j), x(i) != x(j)), lambda i, j: [z3.MultiPattern(x(i), x(j))], [I, I])),
                ('package', c.forall(1, lambda j: Imp(ok(j, n), H.get(x(j), PKG) == P.at(v, j)), lambda j: [x(j)], [I])),
                ('no dependencies', c.forall(1, lambda j: Imp(ok(j, n), And(Not(H.has(x(j), DP)), Not(H.has(x(j), PK)))), lambda j: [x(j)], [I])),
                ('options', c.forall(2, lambda j, k: Imp(And(ok(j, n), k != PK, k != DP, k != PKG, k != KEYS), H.get(x(j), k) == P.get(s, k)), lambda j, k: [
                    H.get(x(j), k)], [I, M.V]))]

    def inv(c):
        P, s, v = resolve.parts(c)
        H = c.h
        return resolve.each(c, H, c.l('result'), c.idx) + [
            ('rule', c.forall(1, lambda k: H.get(s, k) == Ite(Or(k == PK, k == DP), ABSENT, P.get(s, k)), lambda k: [H.get(s, k)])),
            ('packages', And(H.llen(v) == P.llen(v), c.forall(1, lambda j: H.at(v, j) == P.at(v, j), lambda j: [H.at(v, j)], [I]), c.l('result') != v))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        P, s, v = resolve.parts(c)
        return [('rule: ' + l, b) for l, b in parse_rule.content(c, P, s)] + resolve.each(c, c.post, c.res, P.llen(v))
