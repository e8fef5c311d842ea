"""Contract for resolving keys (xylem/resolve.py)."""
import types

from contracts.world import *
from contracts import database as D
from contracts import installers as IN
from contracts import util
from contracts.rules_merge import hashable
from pyvc.theory import first, inlist, listed, Least

I, A = M.I, z3.ArraySort(M.I, M.V)


def refuses(inst, rule):
    return ufb('installer.refuses', inst, rule)


def answer(inst, rule):
    return ufv('installer.resolve', inst, rule)


method('Installer.resolve', ['self', 'installer_rule'], 'list', lambda c: [
    ('accepts', Not(refuses(c.a.self, c.a.installer_rule))), ('answer', c.res == answer(c.a.self, c.a.installer_rule))],
    raises_={'InstallerError': lambda c: refuses(c.a.self, c.a.installer_rule), 'LookupError': never, 'Exception': None})


COMPS = ('dm', 'll', 'le', 'f.spec', 'f.data', 'f.name', 'f.sources', 'f.installer_plugins', 'f.core_installers',
         'f.additional_installers')
BS = z3.BoolSort()


def op(name, n, body, ret=BS):
    """predicate of configuration, database, installer context and n values, in the heap before the call"""
    f = M.opaque('rs:' + name, [M.V] * (n + 3), body, ret, COMPS)
    return lambda c, *a: f(c.pre, c.a.config, c.a.database, c.a.installer_context, *a)


def orule(H, cf, db_, ic, key, name):
    """the database's rule of the key for the installer of that name"""
    return D.dbrule(H, H.field(db_, 'sources'), key, ic, name)


def loaded(H, ic, name):
    p = H.field(ic, 'installer_plugins')
    return IN.fnd(H.comp('f.name'), H.lseq(p), H.llen(p), name)


def inlst(H, l, x, f=None):
    return M.exists(1, lambda j: And(j >= 0, j < H.llen(l), H.at(l, j) == x, *([f(j)] if f else [])), [I])


def olists(H, cf, db_, ic, q, key):
    d = H.get(cf, STR('install_from'))
    l = H.get(d, q)
    return And(H.has(d, q), l != NONE, inlst(H, l, key))


class Ov(object):
    """contract context of an opaque definition"""
    def __init__(self, H, cf, db_, ic):
        self.pre = H
        self.a = types.SimpleNamespace(config=cf, database=db_, installer_context=ic)


rule = op('rule', 2, orule, M.V)
# key is configured to be installed from q
lists = op('lists', 2, olists)
# key is configured to be installed from some installer
configured = op('configured', 1, lambda H, cf, db_, ic, key: M.exists(1, lambda q: lists(Ov(H, cf, db_, ic), q, key), pats=lambda q: [lists(Ov(H, cf, db_, ic), q, key)]))
# the installer of that name
plugin = op('plugin', 1, lambda H, cf, db_, ic, q: loaded(H, ic, q), M.V)


def core(H, ic):
    return H.field(ic, 'core_installers')


def additional(H, ic):
    return H.field(ic, 'additional_installers')


def _has(sp, da, nm, src, nsrc, ic, key, l, j):
    return D._dbrule(sp, da, src, nsrc, key, ic, z3.Select(nm, M.V.r(z3.Select(l, j))), z3.IntVal(0)) != ABSENT


_least = Least('least with rule', [A, A, A, M.SeqS, I, M.V, M.V, M.SeqS], _has, lambda *a: z3.Select(a[-2], a[-1]))


def least(H, w, key, l, n=None):
    """index of the first of the (first n) installers of l that has a rule"""
    cf, db_, ic = w
    src = H.field(db_, 'sources')
    return _least(H.comp('f.spec'), H.comp('f.data'), H.comp('f.name'), H.lseq(src), H.llen(src), ic, key, H.lseq(l),
                  H.llen(l) if n is None else n)


# no (core, additional) installer has a rule for the key
nocore = op('nocore', 1, lambda H, cf, db_, ic, key: least(H, (cf, db_, ic), key, core(H, ic)) == H.llen(core(H, ic)))
noadd = op('noadd', 1, lambda H, cf, db_, ic, key: least(H, (cf, db_, ic), key, additional(H, ic)) == H.llen(additional(H, ic)))
# i is the first core installer (an additional installer) that has a rule
firstcore = op('firstcore', 2, lambda H, cf, db_, ic, key, i: z3.And(
    least(H, (cf, db_, ic), key, core(H, ic)) < H.llen(core(H, ic)),
    i == H.at(core(H, ic), least(H, (cf, db_, ic), key, core(H, ic)))))
isadd = op('isadd', 2, lambda H, cf, db_, ic, key, i: And(
    orule(H, cf, db_, ic, key, H.field(i, 'name')) != ABSENT, inlst(H, additional(H, ic), i)))
def picked(c, key, i, r):
    """i is an installer which has to resolve key, with rule r"""
    return And(r == rule(c, key, c.pre.field(i, 'name')), r != ABSENT, Or(
        And(configured(c, key), M.exists(1, lambda q: And(lists(c, q, key), plugin(c, q) == i, i != NONE), pats=lambda q: [lists(c, q, key)])),
        And(Not(configured(c, key)), Or(firstcore(c, key, i), And(nocore(c, key), isadd(c, key, i))))))


def noinstaller(c, key):
    return Or(And(configured(c, key), M.exists(1, lambda q: And(lists(c, q, key), Or(
        plugin(c, q) == NONE, rule(c, key, q) == ABSENT)), pats=lambda q: [lists(c, q, key)])),
        And(Not(configured(c, key)), nocore(c, key), noadd(c, key)))


def justified(c, key):
    """why a key may be reported as an error"""
    return Or(Not(D.answered(c.pre, c.pre.field(c.a.database, 'sources'), key, c.a.installer_context)), noinstaller(c, key), M.forall(1, lambda i: rule(c, key, i) == ABSENT, lambda i: [rule(c, key, i)]),
              M.exists(2, lambda i, r: And(picked(c, key, i, r), refuses(i, r)), pats=lambda i, r: [refuses(i, r)]))


def key_of(t):
    return M.V.t2a(t)


def resolved(c, t):
    """(key, (installer name, the installer's answer to the rule))"""
    return M.exists(2, lambda i, r: And(picked(c, key_of(t), i, r), Not(refuses(i, r)), t == M.vtuple([
        key_of(t), M.vtuple([c.pre.field(i, 'name'), answer(i, r)])])), pats=lambda i, r: [answer(i, r)])


resolved_ = op('resolved', 1, lambda H, cf, db_, ic, t: resolved(Ov(H, cf, db_, ic), t))
justified_ = op('justified', 1, lambda H, cf, db_, ic, key: justified(Ov(H, cf, db_, ic), key))


def froms(c):
    return c.pre.get(c.a.config, STR('install_from'))


def wanted(c, x):
    return Or(inlist(c.pre, c.a.xylem_keys, x), And(c.a.all_keys == M.vbool(True), D.defined(
        c.pre, c.pre.field(c.a.database, 'sources'), c.a.installer_context, x)))


def every(H, l, f):
    return M.forall(1, lambda j: Imp(And(j >= 0, j < H.llen(l)), f(H.at(l, j))), lambda j: [H.at(l, j)], [I])


def pairs(c, H, l, m, f):
    return c.forall(2, lambda i, j: Imp(And(i >= 0, j >= 0, i < H.llen(l), j < H.llen(m), *([i < j] if l is m else [])), f(
        key_of(H.at(l, i)), key_of(H.at(m, j)))), lambda i, j: [z3.MultiPattern(H.at(l, i), H.at(m, j))], [I, I])


def noneyet(c, key, l):
    return c.forall(1, lambda j: Imp(And(j >= 0, j < c.idx), rule(c, key, c.pre.field(c.elem(j), 'name')) == ABSENT),
                    lambda j: [c.elem(j)], [I])


@contract
class resolve(Contract):
    key = 'xylem.resolve:resolve'
    types = {'xylem_keys': 'list', 'all_keys': 'bool', 'config': 'ConfigDict', 'database': 'RulesDatabase',
             'sources_context': 'any', 'installer_context': 'InstallerContext'}
    result = 'tuple[list[tuple[any,tuple[str,list]]],list]'
    raises = {'InstallerError': never, 'LookupError': lambda c: c.a.all_keys == M.vbool(True), 'Exception': None}
    modifies = {'f.options': None, 'f._os': None}

    def requires(c):
        a, H = c.a, c.pre
        return [('keys', every(H, a.xylem_keys, hashable)),
                ('config', wfconf(H, a.config)),
                ('install from', c.forall(1, lambda q: Imp(And(H.has(froms(c), q), H.get(froms(c), q) != NONE), typed(
                    H, H.get(froms(c), q), 'list[str]')), lambda q: [H.get(froms(c), q)])),
                ('sources', tfield(H, a.database, 'sources', 'list[RulesSource]'))] + [
                    (f, tfield(H, a.installer_context, f, 'list[Installer]')) for f in (
                        'installer_plugins', 'core_installers', 'additional_installers')] + [
                    ('os plugins', tfield(H, H.field(a.installer_context, 'os_support'), 'os_plugins', 'list[OS]'))]

    def ensures(c):
        H = c.post
        r, e = M.V.t2a(c.res), M.V.t2b(c.res)
        pos = lambda x: first(c.pre, c.a.xylem_keys, x)
        return [('results', every(H, r, lambda t: resolved_(c, t))),
                ('errors', every(H, e, lambda t: justified_(c, key_of(t)))),
                ('only wanted', And(*[every(H, l, lambda t: wanted(c, key_of(t))) for l in (r, e)])),
                ('every wanted key', c.forall(1, lambda x: Imp(wanted(c, x), Or(listed(H, r, x), listed(H, e, x))))),
                ('once', And(*[pairs(c, H, l, m, lambda x, y: x != y) for l, m in ((r, r), (e, e), (r, e))])),
                ('order', And(*[pairs(c, H, l, l, lambda x, y: pos(x) <= pos(y)) for l in (r, e)]))]

    @staticmethod
    def inv_map(c):
        m = c.l('install_from_map')
        return [('complete', c.forall(2, lambda q, x: Imp(And(c.done(q), lists(c, q, x)), c.h.has(m, x)), lambda q, x: [lists(c, q, x)])),
                ('map', c.forall(1, lambda x: Imp(c.h.has(m, x), lists(c, c.h.get(m, x), x)), lambda x: [c.h.get(m, x)]))]

    @staticmethod
    def inv_keys(c):
        m, l, q = c.l('install_from_map'), c.l('keys'), c.l('inst')
        return [('complete', c.forall(1, lambda j: Imp(And(j >= 0, j < c.idx), c.h.has(m, c.elem(j))), lambda j: [c.elem(j)], [I])),
                ('kept', c.forall(1, lambda x: Imp(c.entry.has(m, x), c.h.has(m, x)), lambda x: [c.h.get(m, x)])),
                ('map', c.forall(1, lambda x: Imp(c.h.has(m, x), lists(c, c.h.get(m, x), x)), lambda x: [c.h.get(m, x)]))]

    @staticmethod
    def inv(c):
        r, e, lk, H = c.l('result'), c.l('errors'), c.l('lookup_keys'), c.h
        pos = lambda x: first(H, lk, x)
        return [('wanted', c.forall(1, lambda x: wanted(c, x) == inlist(H, lk, x), lambda x: [
                    first(c.pre, c.a.xylem_keys, x), D.defined(c.pre, c.pre.field(c.a.database, 'sources'), c.a.installer_context, x)])),
                ('results', every(H, r, lambda t: resolved_(c, t))),
                ('types', every(H, r, lambda t: typed(H, t, 'tuple[any,tuple[str,list]]'))),
                ('errors', every(H, e, lambda t: justified_(c, key_of(t)))),
                ('seen', And(*[every(H, l, lambda t: pos(key_of(t)) < c.idx) for l in (r, e)])),
                ('all seen', c.forall(1, lambda j: Imp(And(j >= 0, j < c.idx), Or(listed(H, r, c.elem(j)), listed(H, e, c.elem(j)))),
                                      lambda j: [c.elem(j)], [I])),
                ('once', pairs(c, H, r, e, lambda x, y: x != y)),
                ('order', And(*[pairs(c, H, l, l, lambda x, y: pos(x) < pos(y)) for l in (r, e)]))]

    def inv_core(c):
        return [('none yet', noneyet(c, c.l('key'), core)), ('not chosen', c.l('installer') == NONE)]

    def inv_add(c):
        i, key = c.l('installer'), c.l('key')
        bound, r = c.maybe('rule')
        return [('none yet', Imp(i == NONE, noneyet(c, key, additional))),
                ('chosen', Imp(i != NONE, And(isadd(c, key, i), bound, r == rule(c, key, c.pre.field(i, 'name')))))]
    loops = {0: inv_map, 1: inv_keys, 2: inv, 3: staticmethod(inv_core), 4: staticmethod(inv_add)}
    loop_types = {3: {'installer': 'Installer?'}, 4: {'installer': 'Installer?'}}
