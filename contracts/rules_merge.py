"""Contracts for merging of expanded rules (sources/rules_dict.py)."""
from pyvc import model as M
from pyvc.db import Contract, contract, db
from pyvc.model import And, Or, Not, Imp, Ite, ABSENT, NONE, over

RD = 'xylem.sources.rules_dict:'
DI = M.vstr('default_installer')
AV = M.vstr('any_version')
AO = M.vstr('any_os')


def okname(d):
    """usable name of a default installer"""
    return And(d != NONE, d != M.vstr(''))


def eff(H, idt, d, i):
    """rule of installer i in installer dict idt, default installer d"""
    return Ite(i == DI, ABSENT, Ite(i == d, over(H.get(idt, d), H.get(idt, DI)), H.get(idt, i)))


def hashable(v):
    r = M.V.r(v)
    k = M.kindf(r)
    return Not(And(M.V.is_ref(v), Or(k == M.K_LIST, k == M.K_SET, And(
        k == M.K_DICT, Not(M.instf(M.clsf(r), M.z3.IntVal(M.cls_id('Resolution'))))))))


def nodup(H, idt, d):
    return And(Not(And(H.has(idt, DI), H.has(idt, d))))


@contract
class replace_default_installer(Contract):
    key = RD + 'replace_default_installer'
    types = {'installer_name': 'any', 'default_installer_name': 'str?'}
    allocs = False
    raises = {'ValueError': lambda c: And(c.a.installer_name == DI, Not(okname(c.a.default_installer_name)))}

    def ensures(c):
        return [('value', c.res == Ite(c.a.installer_name == DI, c.a.default_installer_name,
                                       c.a.installer_name)),
                ('error is raised', Or(c.a.installer_name != DI, okname(c.a.default_installer_name)))]


@contract
class copy_installer_dict(Contract):
    key = RD + 'copy_installer_dict'
    types = {'installer_dict': 'dict', 'default_installer': 'str?'}
    result = 'dict'
    raises = {'ValueError': lambda c: And(c.pre.has(c.a.installer_dict, DI), Not(okname(c.a.default_installer)))}

    def requires(c):
        return [('no duplicate of default', nodup(c.pre, c.a.installer_dict, c.a.default_installer)),
                ('default name', c.a.default_installer != DI)]

    def ensures(c):
        a = c.a
        return [('fresh', M.rid(c.res) >= c.alloc0),
                ('unowned', c.post.par(c.res) == -1),
                ('no default without name', Or(Not(c.pre.has(a.installer_dict, DI)), okname(a.default_installer))),
                ('entries', c.forall(1, lambda i: c.post.get(c.res, i) == eff(c.pre, a.installer_dict, a.default_installer, i),
                                     lambda i: [c.post.get(c.res, i)]))]

    @staticmethod
    def inv(c):
        a, r = c.a, c.l('result')
        g = lambda q: Ite(c.done(q), c.pre.get(a.installer_dict, q), ABSENT)
        d = a.default_installer
        return [('entries', c.forall(1, lambda i: c.h.get(r, i) == Ite(
            i == DI, ABSENT, Ite(i == d, over(g(d), g(DI)), g(i))), lambda i: [c.h.get(r, i)])),
            ('default', Imp(c.done(DI), okname(d))),
            ('unowned', c.h.par(r) == -1)]
    loops = {0: inv}


# ---------------------------------------------------------------- version dicts
def cget(H, vd, ver, i):
    """raw rule of installer i under version ver"""
    return Ite(H.has(vd, ver), H.get(H.get(vd, ver), i), ABSENT)


def nget(H, vd, ver, d, i):
    """effective rule of installer i under exactly version ver"""
    return Ite(H.has(vd, ver), eff(H, H.get(vd, ver), d, i), ABSENT)


def view(H, vd, ver, i):
    """lookup in a merged version dict: version entry, else any_version"""
    return over(cget(H, vd, ver, i), cget(H, vd, AV, i))


def nview(H, vd, ver, d, i):
    return over(nget(H, vd, ver, d, i), nget(H, vd, AV, d, i))


def tree2(H, vd):
    """version dict owning its installer dicts"""
    return M.forall(1, lambda v: Imp(H.has(vd, v), And(
        H.isdict(H.get(vd, v)), H.islive(H.get(vd, v)), H.owned(vd, v), H.get(vd, v) != vd)),
        lambda v: [H.get(vd, v)])


def input2(H, vd, d):
    """readable expanded version dict with default installer d"""
    return M.forall(1, lambda v: Imp(H.has(vd, v), And(
        H.isdict(H.get(vd, v)), H.islive(H.get(vd, v)), nodup(H, H.get(vd, v), d))),
        lambda v: [H.get(vd, v)])


def apart2(H, vd, comb):
    """nothing of vd belongs to comb"""
    return And(vd != comb, H.par(vd) != M.rid(comb), M.forall(1, lambda v: Imp(H.has(vd, v), And(
        H.get(vd, v) != comb, H.par(H.get(vd, v)) != M.rid(comb))), lambda v: [H.get(vd, v)]))


def has_di(H, vd):
    """some version has a rule for the default installer"""
    return M.exists(1, lambda v: And(H.has(vd, v), H.has(H.get(vd, v), DI)))


@contract
class merge_installer_dict(Contract):
    key = RD + 'merge_installer_dict'
    types = {'new_installer_dict': 'dict', 'combined_installer_dict': 'dict', 'default_installer': 'str?'}
    result = 'none'
    raises = {'ValueError': lambda c: And(c.pre.has(c.a.new_installer_dict, DI), Not(okname(c.a.default_installer)))}
    modifies = {'dm': lambda c, r: r == M.rid(c.a.combined_installer_dict)}

    def requires(c):
        a = c.a
        return [('no duplicate of default', nodup(c.pre, a.new_installer_dict, a.default_installer)),
                ('default name', a.default_installer != DI),
                ('distinct', a.new_installer_dict != a.combined_installer_dict)]

    def ensures(c):
        a = c.a
        return [('no default without name', Or(Not(c.pre.has(a.new_installer_dict, DI)), okname(a.default_installer))),
                ('entries', c.forall(1, lambda i: c.post.get(a.combined_installer_dict, i) == over(
                    eff(c.pre, a.new_installer_dict, a.default_installer, i),
                    c.pre.get(a.combined_installer_dict, i)),
                    lambda i: [c.post.get(a.combined_installer_dict, i)]))]

    @staticmethod
    def inv(c):
        a = c.a
        g = lambda q: Ite(c.done(q), c.pre.get(a.new_installer_dict, q), ABSENT)
        d = a.default_installer
        return [('entries', c.forall(1, lambda i: c.h.get(a.combined_installer_dict, i) == over(Ite(
            i == DI, ABSENT, Ite(i == d, over(g(d), g(DI)), g(i))), c.pre.get(a.combined_installer_dict, i)),
            lambda i: [c.h.get(a.combined_installer_dict, i)])),
            ('default', Imp(c.done(DI), okname(d)))]
    loops = {0: inv}


@contract
class copy_version_dict(Contract):
    key = RD + 'copy_version_dict'
    types = {'version_dict': 'dict', 'default_installer': 'str?'}
    result = 'dict'
    raises = {'ValueError': lambda c: And(has_di(c.pre, c.a.version_dict), Not(okname(c.a.default_installer)))}

    def requires(c):
        return [('input', input2(c.pre, c.a.version_dict, c.a.default_installer)),
                ('default name', c.a.default_installer != DI)]

    def ensures(c):
        a = c.a
        return [('fresh', M.rid(c.res) >= c.alloc0), ('unowned', c.post.par(c.res) == -1),
                ('tree', tree2(c.post, c.res)),
                ('no default without name', c.forall(1, lambda v: Imp(And(c.pre.has(a.version_dict, v), c.pre.has(c.pre.get(
                    a.version_dict, v), DI)), okname(a.default_installer)), lambda v: [c.pre.get(a.version_dict, v)])),
                ('fresh entries', c.forall(1, lambda v: Imp(c.post.has(c.res, v), M.rid(c.post.get(c.res, v)) >= c.alloc0),
                                           lambda v: [c.post.get(c.res, v)])),
                ('versions', c.forall(1, lambda v: c.post.has(c.res, v) == c.pre.has(a.version_dict, v),
                                      lambda v: [c.post.get(c.res, v)])),
                ('entries', c.forall(2, lambda v, i: cget(c.post, c.res, v, i) == nget(
                    c.pre, a.version_dict, v, a.default_installer, i),
                    lambda v, i: [c.post.get(c.post.get(c.res, v), i)]))]

    @staticmethod
    def inv(c):
        a, r = c.a, c.l('result')
        return [('tree', tree2(c.h, r)), ('unowned', c.h.par(r) == -1),
                ('fresh entries', c.forall(1, lambda v: Imp(c.h.has(r, v), M.rid(c.h.get(r, v)) > M.rid(r)),
                                           lambda v: [c.h.get(r, v)])),
                ('default', c.forall(1, lambda v: Imp(And(c.done(v), c.pre.has(c.pre.get(a.version_dict, v), DI)), okname(
                    a.default_installer)), lambda v: [c.done(v)])),
                ('versions', c.forall(1, lambda v: c.h.has(r, v) == c.done(v), lambda v: [c.h.get(r, v), c.done(v)])),
                ('entries', c.forall(2, lambda v, i: Imp(c.h.has(r, v), c.h.get(c.h.get(r, v), i) == nget(
                    c.pre, a.version_dict, v, a.default_installer, i)),
                    lambda v, i: [c.h.get(c.h.get(r, v), i)]))]
    loops = {0: inv}


@contract
class remove_rule_for_all_versions(Contract):
    key = RD + 'remove_rule_for_all_versions'
    types = {'version_dict': 'dict', 'installer_name': 'any', 'retain_any_version': 'bool'}
    result = 'none'
    modifies = {'dm': lambda c, r: Or(r == M.rid(c.a.version_dict), c.pre.par_r(r) == M.rid(c.a.version_dict))}

    def requires(c):
        return [('tree', tree2(c.pre, c.a.version_dict)), ('hashable', hashable(c.a.installer_name))]

    @staticmethod
    def gone(c, v, i):
        return And(i == c.a.installer_name, Not(And(M.V.b(c.a.retain_any_version), v == AV)))

    def ensures(c):
        d = c.a.version_dict
        g = remove_rule_for_all_versions.gone
        return [('same entries', c.forall(1, lambda v: Imp(c.post.has(d, v), c.post.get(d, v) == c.pre.get(d, v)),
                                          lambda v: [c.post.get(d, v)])),
                ('any_version kept', Imp(M.V.b(c.a.retain_any_version), And(
                    c.post.get(d, AV) == c.pre.get(d, AV),
                    Imp(c.pre.has(d, AV), c.post.dmap(c.pre.get(d, AV)) == c.pre.dmap(c.pre.get(d, AV)))))),
                ('rules', c.forall(2, lambda v, i: cget(c.post, d, v, i) == Ite(
                    g(c, v, i), ABSENT, cget(c.pre, d, v, i)),
                    lambda v, i: [c.post.get(c.post.get(d, v), i), c.pre.get(c.pre.get(d, v), i)]))]

    @staticmethod
    def inv(c):
        d = c.a.version_dict
        g = remove_rule_for_all_versions.gone
        return [('same entries', c.forall(1, lambda v: Imp(c.h.has(d, v), c.h.get(d, v) == c.pre.get(d, v)),
                                          lambda v: [c.h.get(d, v)])),
                ('pending entries', c.forall(1, lambda v: Imp(Not(c.done(v)), And(
                    c.h.get(d, v) == c.pre.get(d, v),
                    Imp(c.pre.has(d, v), c.h.dmap(c.pre.get(d, v)) == c.pre.dmap(c.pre.get(d, v))))),
                    lambda v: [c.h.get(d, v), c.done(v)])),
                ('any_version kept', Imp(M.V.b(c.a.retain_any_version), And(
                    c.h.get(d, AV) == c.pre.get(d, AV),
                    Imp(c.pre.has(d, AV), c.h.dmap(c.pre.get(d, AV)) == c.pre.dmap(c.pre.get(d, AV)))))),
                ('rules', c.forall(2, lambda v, i: Imp(c.done(v), cget(c.h, d, v, i) == Ite(
                    g(c, v, i), ABSENT, cget(c.pre, d, v, i))),
                    lambda v, i: [c.h.get(c.h.get(d, v), i), c.pre.get(c.pre.get(d, v), i)]))]
    loops = {0: inv}


@contract
class merge_version_dict(Contract):
    key = RD + 'merge_version_dict'
    types = {'new_version_dict': 'dict', 'combined_version_dict': 'dict', 'default_installer': 'str?'}
    result = 'none'
    raises = {'ValueError': lambda c: And(has_di(c.pre, c.a.new_version_dict), Not(okname(c.a.default_installer)))}
    modifies = {'dm': lambda c, r: Or(r == M.rid(c.a.combined_version_dict),
                                      c.pre.par_r(r) == M.rid(c.a.combined_version_dict))}

    def requires(c):
        a = c.a
        return [('tree', tree2(c.pre, a.combined_version_dict)),
                ('input', input2(c.pre, a.new_version_dict, a.default_installer)),
                ('apart', apart2(c.pre, a.new_version_dict, a.combined_version_dict)),
                ('default name', a.default_installer != DI)]

    def ensures(c):
        a = c.a
        d = a.combined_version_dict
        return [('tree', tree2(c.post, d)),
                ('old or new entries', c.forall(1, lambda v: Imp(c.post.has(d, v), Or(
                    c.post.get(d, v) == c.pre.get(d, v), M.rid(c.post.get(d, v)) >= c.alloc0)),
                    lambda v: [c.post.get(d, v)])),
                ('precedence', c.forall(2, lambda v, i: view(c.post, d, v, i) == over(
                    nview(c.pre, a.new_version_dict, v, a.default_installer, i),
                    view(c.pre, d, v, i)), lambda v, i: [c.post.get(c.post.get(d, v), i)])),
                ('versions', c.forall(1, lambda v: Imp(c.post.has(d, v), Or(
                    c.pre.has(d, v), c.pre.has(a.new_version_dict, v))), lambda v: [c.post.get(d, v)]))]

    @staticmethod
    def inv0(c):
        a = c.a
        d = a.combined_version_dict
        nm = a.default_installer

        def gone(i):
            return And(i != DI, Or(c.done(i), And(i == nm, c.done(DI))))
        return [('tree', tree2(c.h, d)),
                ('same entries', c.forall(1, lambda v: Imp(c.h.has(d, v), c.h.get(d, v) == c.pre.get(d, v)),
                                          lambda v: [c.h.get(d, v)])),
                ('any_version kept', And(c.h.get(d, AV) == c.pre.get(d, AV),
                                         Imp(c.pre.has(d, AV), c.h.dmap(c.pre.get(d, AV)) == c.pre.dmap(c.pre.get(d, AV))))),
                ('rules', c.forall(2, lambda v, i: Imp(v != AV, cget(c.h, d, v, i) == Ite(
                    gone(i), ABSENT, cget(c.pre, d, v, i))),
                    lambda v, i: [c.h.get(c.h.get(d, v), i), c.pre.get(c.pre.get(d, v), i)]))]

    @staticmethod
    def inv1(c):
        a = c.a
        d = a.combined_version_dict
        return [('tree', tree2(c.h, d)),
                ('versions', c.forall(1, lambda v: Imp(c.h.has(d, v), Or(
                    c.pre.has(d, v), c.pre.has(a.new_version_dict, v))), lambda v: [c.h.get(d, v)])),
                ('old or new entries', c.forall(1, lambda v: Imp(c.h.has(d, v), Or(
                    c.h.get(d, v) == c.pre.get(d, v), M.rid(c.h.get(d, v)) >= c.pre.alloc)),
                    lambda v: [c.h.get(d, v)])),
                ('kept versions', c.forall(1, lambda v: Imp(c.entry.has(d, v), c.h.get(d, v) == c.entry.get(d, v)),
                                           lambda v: [c.h.get(d, v)])),
                ('rules', c.forall(2, lambda v, i: cget(c.h, d, v, i) == over(
                    Ite(c.done(v), nget(c.pre, a.new_version_dict, v, a.default_installer, i), ABSENT),
                    cget(c.entry, d, v, i)), lambda v, i: [c.h.get(c.h.get(d, v), i)]))]
    loops = {0: inv0, 1: inv1}


# ---------------------------------------------------------------- os dicts
def oget(H, od, o, v, i):
    """raw rule of installer i for exactly os o, version v"""
    return Ite(H.has(od, o), cget(H, H.get(od, o), v, i), ABSENT)


def oview(H, od, o, v, i):
    """lookup in a merged os dict: os entry (version, any_version), else any_os"""
    return over(Ite(H.has(od, o), view(H, H.get(od, o), v, i), ABSENT), oget(H, od, AO, AV, i))


def noview(H, od, o, v, d, i):
    """lookup in an unmerged os dict whose default installer for o is d"""
    return over(Ite(H.has(od, o), nview(H, H.get(od, o), v, d, i), ABSENT),
                Ite(H.has(od, AO), nget(H, H.get(od, AO), AV, NONE, i), ABSENT))


def tree3(H, od):
    return And(
        M.forall(1, lambda o: Imp(H.has(od, o), And(
            H.isdict(H.get(od, o)), H.islive(H.get(od, o)), H.owned(od, o), H.get(od, o) != od,
            H.par(od) != M.rid(H.get(od, o)))),
            lambda o: [H.get(od, o)]),
        M.forall(2, lambda o, v: Imp(And(H.has(od, o), H.has(H.get(od, o), v)), And(
            H.isdict(H.get(H.get(od, o), v)), H.islive(H.get(H.get(od, o), v)),
            H.owned(H.get(od, o), v), H.get(H.get(od, o), v) != od,
            H.par(od) != M.rid(H.get(H.get(od, o), v)))),
            lambda o, v: [H.get(H.get(od, o), v)]),
        Imp(H.has(od, AO), H.has(H.get(od, AO), AV)))


def input3(H, od, defs):
    """readable expanded os dict for the default installers defs"""
    dflt = lambda o: Ite(o == AO, NONE, H.get(defs, o))
    rel = lambda o: And(H.has(od, o), Or(o == AO, H.has(defs, o)))
    return And(
        M.forall(1, lambda o: Imp(H.has(od, o), And(
            H.isdict(H.get(od, o)), H.islive(H.get(od, o)))), lambda o: [H.get(od, o)]),
        M.forall(2, lambda o, v: Imp(And(rel(o), H.has(H.get(od, o), v)), And(
            H.isdict(H.get(H.get(od, o), v)), H.islive(H.get(H.get(od, o), v)),
            nodup(H, H.get(H.get(od, o), v), dflt(o)))),
            lambda o, v: [H.get(H.get(od, o), v)]),
        Imp(H.has(od, AO), H.has(H.get(od, AO), AV)))


def apart3(H, od, comb, defs):
    """nothing of od (at the oses of defs) belongs to comb or to a member of comb"""
    out = lambda x: And(x != comb, H.par(x) != M.rid(comb),
                        Or(H.par(x) == -1, H.par_r(H.par(x)) != M.rid(comb)))
    return And(out(od),
               M.forall(1, lambda o: Imp(H.has(od, o), out(H.get(od, o))), lambda o: [H.get(od, o)]),
               M.forall(2, lambda o, v: Imp(And(H.has(od, o), Or(o == AO, H.has(defs, o)), H.has(H.get(od, o), v)), out(H.get(H.get(od, o), v))),
                        lambda o, v: [H.get(H.get(od, o), v)]))


def defaults_ok(H, defs):
    return And(Not(H.has(defs, AO)), M.forall(1, lambda o: Imp(H.has(defs, o), And(
        M.V.is_str(H.get(defs, o)), H.get(defs, o) != M.vstr(''), H.get(defs, o) != DI)), lambda o: [H.get(defs, o)]))


def any_os_di(H, od):
    """any_os entry naming the default installer (not allowed)"""
    return And(H.has(od, AO), has_di(H, H.get(od, AO)))


def any_os_default(H, od):
    return And(H.has(od, AO), H.has(H.get(H.get(od, AO), AV), DI))


def below(H, x):
    """region: x, its members and their members"""
    rx = M.rid(x)
    return lambda r: Or(r == rx, H.par_r(r) == rx, And(H.par_r(r) != -1, H.par_r(H.par_r(r)) == rx))


@contract
class remove_rule_for_all_os(Contract):
    key = RD + 'remove_rule_for_all_os'
    types = {'os_dict': 'dict', 'installer_name': 'any'}
    result = 'none'
    modifies = {'dm': lambda c, r: below(c.pre, c.a.os_dict)(r)}

    def requires(c):
        return [('tree', tree3(c.pre, c.a.os_dict)), ('hashable', hashable(c.a.installer_name))]

    def ensures(c):
        d = c.a.os_dict
        return [('tree', tree3(c.post, d)),
                ('same entries', c.forall(1, lambda o: Imp(c.post.has(d, o), c.post.get(d, o) == c.pre.get(d, o)),
                                          lambda o: [c.post.get(d, o)])),
                ('same versions', c.forall(2, lambda o, v: Imp(
                    And(c.post.has(d, o), c.post.has(c.post.get(d, o), v)),
                    c.post.get(c.post.get(d, o), v) == c.pre.get(c.pre.get(d, o), v)),
                    lambda o, v: [c.post.get(c.post.get(d, o), v)])),
                ('any_os kept', And(c.post.get(d, AO) == c.pre.get(d, AO), Imp(
                    c.pre.has(d, AO), And(
                        c.post.dmap(c.pre.get(d, AO)) == c.pre.dmap(c.pre.get(d, AO)),
                        c.forall(1, lambda i: oget(c.post, d, AO, AV, i) == oget(c.pre, d, AO, AV, i),
                                 lambda i: [c.post.get(c.post.get(c.post.get(d, AO), AV), i)]))))),
                ('rules', c.forall(3, lambda o, v, i: Imp(o != AO, oget(c.post, d, o, v, i) == Ite(
                    i == c.a.installer_name, ABSENT, oget(c.pre, d, o, v, i))),
                    lambda o, v, i: [c.post.get(c.post.get(c.post.get(d, o), v), i),
                                     c.pre.get(c.pre.get(c.pre.get(d, o), v), i)]))]

    @staticmethod
    def inv(c):
        d = c.a.os_dict
        P, H = c.pre, c.h
        return [('tree', tree3(H, d)),
                ('same entries', c.forall(1, lambda o: Imp(H.has(d, o), H.get(d, o) == P.get(d, o)),
                                          lambda o: [H.get(d, o)])),
                ('same versions', c.forall(2, lambda o, v: Imp(
                    And(H.has(d, o), H.has(H.get(d, o), v)),
                    H.get(H.get(d, o), v) == P.get(P.get(d, o), v)),
                    lambda o, v: [H.get(H.get(d, o), v)])),
                ('pending', c.forall(1, lambda o: Imp(Or(o == AO, Not(c.done(o))), And(
                    H.get(d, o) == P.get(d, o),
                    Imp(P.has(d, o), H.dmap(P.get(d, o)) == P.dmap(P.get(d, o))))),
                    lambda o: [H.get(d, o), c.done(o)])),
                ('pending rules', c.forall(2, lambda o, v: Imp(And(Or(o == AO, Not(c.done(o))), P.has(d, o), P.has(P.get(d, o), v)),
                    H.dmap(P.get(P.get(d, o), v)) == P.dmap(P.get(P.get(d, o), v))),
                    lambda o, v: [P.get(P.get(d, o), v)])),
                ('rules', c.forall(3, lambda o, v, i: Imp(And(o != AO, c.done(o)), oget(H, d, o, v, i) == Ite(
                    i == c.a.installer_name, ABSENT, oget(P, d, o, v, i))),
                    lambda o, v, i: [H.get(H.get(H.get(d, o), v), i), P.get(P.get(P.get(d, o), v), i)]))]
    loops = {0: inv}


@contract
class copy_os_dict(Contract):
    key = RD + 'copy_os_dict'
    types = {'os_dict': 'dict', 'default_installers': 'dict'}
    result = 'dict'
    raises = {'ValueError': lambda c: any_os_di(c.pre, c.a.os_dict)}

    def requires(c):
        a = c.a
        return [('defaults', defaults_ok(c.pre, a.default_installers)),
                ('input', input3(c.pre, a.os_dict, a.default_installers))]

    @staticmethod
    def kept(c, o):
        return And(c.pre.has(c.a.os_dict, o), Or(o == AO, c.pre.has(c.a.default_installers, o)))

    @staticmethod
    def dflt(c, o):
        return Ite(o == AO, NONE, c.pre.get(c.a.default_installers, o))

    def ensures(c):
        a, r = c.a, c.res
        k, df = copy_os_dict.kept, copy_os_dict.dflt
        return [('fresh', M.rid(r) >= c.alloc0), ('unowned', c.post.par(r) == -1),
                ('tree', tree3(c.post, r)),
                ('no default for any os', Not(any_os_default(c.pre, a.os_dict))),
                ('fresh entries', c.forall(1, lambda o: Imp(c.post.has(r, o), M.rid(c.post.get(r, o)) >= c.alloc0),
                                           lambda o: [c.post.get(r, o)])),
                ('fresh versions', c.forall(2, lambda o, v: Imp(
                    And(c.post.has(r, o), c.post.has(c.post.get(r, o), v)), M.rid(c.post.get(c.post.get(r, o), v)) >= c.alloc0),
                    lambda o, v: [c.post.get(c.post.get(r, o), v)])),
                ('os filter', c.forall(1, lambda o: c.post.has(r, o) == k(c, o), lambda o: [c.post.get(r, o)])),
                ('rules', c.forall(3, lambda o, v, i: oget(c.post, r, o, v, i) == Ite(
                    k(c, o), nget(c.pre, c.pre.get(a.os_dict, o), v, df(c, o), i), ABSENT),
                    lambda o, v, i: [c.post.get(c.post.get(c.post.get(r, o), v), i)])),
                ('views', c.forall(3, lambda o, v, i: Imp(c.pre.has(a.default_installers, o), oview_(c.post, r, o, v, i) == noview_(
                    c.pre, a.os_dict, o, v, c.pre.get(a.default_installers, o), i)), lambda o, v, i: [
                        OV(c.post, r, o, v, i), ON(c.pre, a.os_dict, o, v, c.pre.get(a.default_installers, o), i)])),
                ('nothing in an empty copy', Imp(c.post.dmap(r) == M.EMPTY, c.forall(3, lambda o, v, i: Imp(c.pre.has(
                    a.default_installers, o), noview_(c.pre, a.os_dict, o, v, c.pre.get(a.default_installers, o), i) == ABSENT), lambda o, v, i: [
                        ON(c.pre, a.os_dict, o, v, c.pre.get(a.default_installers, o), i)])))]

    @staticmethod
    def inv(c):
        a, r, H = c.a, c.l('result'), c.h
        k, df = copy_os_dict.kept, copy_os_dict.dflt
        return [('unowned', H.par(r) == -1), ('tree', tree3(H, r)),
                ('no default for any os', Imp(c.done(AO), Not(any_os_default(c.pre, a.os_dict)))),
                ('fresh entries', c.forall(1, lambda o: Imp(H.has(r, o), M.rid(H.get(r, o)) > M.rid(r)),
                                           lambda o: [H.get(r, o)])),
                ('fresh versions', c.forall(2, lambda o, v: Imp(
                    And(H.has(r, o), H.has(H.get(r, o), v)), M.rid(H.get(H.get(r, o), v)) > M.rid(r)),
                    lambda o, v: [H.get(H.get(r, o), v)])),
                ('os filter', c.forall(1, lambda o: H.has(r, o) == And(c.done(o), k(c, o)), lambda o: [H.get(r, o), c.done(o)])),
                ('rules', c.forall(3, lambda o, v, i: Imp(H.has(r, o), oget(H, r, o, v, i) ==
                    nget(c.pre, c.pre.get(a.os_dict, o), v, df(c, o), i)),
                    lambda o, v, i: [H.get(H.get(H.get(r, o), v), i)]))]
    loops = {0: inv}


OV = M.opaque('OV', [M.V] * 4, lambda H, d, o, v, i: Ite(H.has(d, o), view(H, H.get(d, o), v, i), ABSENT))
ON = M.opaque('ON', [M.V] * 5, lambda H, d, o, v, df, i: Ite(H.has(d, o), nview(H, H.get(d, o), v, df, i), ABSENT))
AV_ = M.opaque('AV_', [M.V] * 2, lambda H, d, i: oget(H, d, AO, AV, i))
AN_ = M.opaque('AN_', [M.V] * 2, lambda H, d, i: Ite(H.has(d, AO), nget(H, H.get(d, AO), AV, NONE, i), ABSENT))


def oview_(H, d, o, v, i):
    """rule found by looking up installer i for os o, version v in merged os dict"""
    return over(OV(H, d, o, v, i), AV_(H, d, i))


def noview_(H, d, o, v, df, i):
    return over(ON(H, d, o, v, df, i), AN_(H, d, i))


@contract
class merge_os_dict(Contract):
    key = RD + 'merge_os_dict'
    types = {'new_os_dict': 'dict', 'combined_os_dict': 'dict', 'default_installers': 'dict'}
    result = 'none'
    raises = {'ValueError': lambda c: any_os_di(c.pre, c.a.new_os_dict)}
    modifies = {'dm': lambda c, r: below(c.pre, c.a.combined_os_dict)(r)}

    def requires(c):
        a = c.a
        return [('defaults', defaults_ok(c.pre, a.default_installers)),
                ('input', input3(c.pre, a.new_os_dict, a.default_installers)),
                ('tree', tree3(c.pre, a.combined_os_dict)),
                ('apart', apart3(c.pre, a.new_os_dict, a.combined_os_dict, a.default_installers)),
                ('defaults apart', And(a.default_installers != a.combined_os_dict, c.pre.par(a.default_installers) == -1))]

    def ensures(c):
        a, d = c.a, c.a.combined_os_dict
        return [('tree', tree3(c.post, d)),
                ('no default for any os', Not(any_os_default(c.pre, a.new_os_dict))),
                ('os filter', c.forall(1, lambda o: Imp(c.post.has(d, o), Or(
                    c.pre.has(d, o), o == AO, c.pre.has(a.default_installers, o))), lambda o: [c.post.get(d, o)])),
                ('precedence', c.forall(3, lambda o, v, i: Imp(
                    c.pre.has(a.default_installers, o), oview_(c.post, d, o, v, i) == over(
                        noview_(c.pre, a.new_os_dict, o, v, c.pre.get(a.default_installers, o), i),
                        oview_(c.pre, d, o, v, i))),
                    lambda o, v, i: [OV(c.post, d, o, v, i)]), ['loop1:inv:entry', 'loop1:inv:any_os views', 'loop1:inv:views', 'req:'])]

    @staticmethod
    def inv0(c):
        a, d, P, H = c.a, c.a.combined_os_dict, c.pre, c.h
        return [('tree', tree3(H, d)),
                ('same entries', c.forall(1, lambda o: Imp(H.has(d, o), H.get(d, o) == P.get(d, o)),
                                          lambda o: [H.get(d, o)])),
                ('any_os kept', And(H.get(d, AO) == P.get(d, AO), Imp(P.has(d, AO), And(
                    H.dmap(P.get(d, AO)) == P.dmap(P.get(d, AO)),
                    c.forall(1, lambda i: oget(H, d, AO, AV, i) == oget(P, d, AO, AV, i),
                             lambda i: [H.get(H.get(H.get(d, AO), AV), i)]))))),
                ('rules', c.forall(3, lambda o, v, i: Imp(o != AO, oget(H, d, o, v, i) == Ite(
                    And(c.done(i), i != DI), ABSENT, oget(P, d, o, v, i))),
                    lambda o, v, i: [H.get(H.get(H.get(d, o), v), i), P.get(P.get(P.get(d, o), v), i)])),
                ('no default', Not(c.done(DI)))]

    @staticmethod
    def inv1(c):
        a, d, P, H, E = c.a, c.a.combined_os_dict, c.pre, c.h, c.entry
        return [('tree', tree3(H, d)),
                ('os filter', c.forall(1, lambda o: Imp(H.has(d, o), Or(
                    P.has(d, o), o == AO, P.has(a.default_installers, o))), lambda o: [H.get(d, o)])),
                ('any_os kept', And(H.get(d, AO) == E.get(d, AO), Imp(E.has(d, AO), And(
                    H.dmap(E.get(d, AO)) == E.dmap(E.get(d, AO)),
                    c.forall(1, lambda i: oget(H, d, AO, AV, i) == oget(E, d, AO, AV, i),
                             lambda i: [H.get(H.get(H.get(d, AO), AV), i)]))))),
                ('entry views', c.forall(3, lambda o, v, i: Imp(o != AO, OV(E, d, o, v, i) == Ite(
                    AN_(P, a.new_os_dict, i) != ABSENT, ABSENT, OV(P, d, o, v, i))),
                    lambda o, v, i: [OV(E, d, o, v, i)]), ['loop1:inv:entry']),
                ('entry any_os', c.forall(1, lambda i: AV_(E, d, i) == over(AN_(P, a.new_os_dict, i), AV_(P, d, i)),
                                          lambda i: [AV_(E, d, i)]), ['loop1:inv:entry']),
                ('any_os views', c.forall(1, lambda i: AV_(H, d, i) == AV_(E, d, i), lambda i: [AV_(H, d, i)])),
                ('views', c.forall(3, lambda o, v, i: Imp(P.has(a.default_installers, o), OV(H, d, o, v, i) == over(
                    Ite(c.done(o), ON(P, a.new_os_dict, o, v, P.get(a.default_installers, o), i), ABSENT),
                    OV(E, d, o, v, i))),
                    lambda o, v, i: [OV(H, d, o, v, i)]), ['assert:view', 'loop1:inv:views'])]

    @staticmethod
    def hint1(c):
        a, d, P, H, E, S, k = c.a, c.a.combined_os_dict, c.pre, c.h, c.entry, c.hs, c.k
        vw = lambda h, o, v, i: OV(h, d, o, v, i)
        nv = lambda o, v, i: ON(P, a.new_os_dict, o, v, P.get(a.default_installers, o), i)
        return [('other os', c.forall(1, lambda o: Imp(o != k, H.get(d, o) == S.get(d, o)),
                                      lambda o: [H.get(d, o)])),
                ('other versions', c.forall(1, lambda o: Imp(And(o != k, S.has(d, o)),
                                            H.dmap(S.get(d, o)) == S.dmap(S.get(d, o))),
                                            lambda o: [H.dmap(S.get(d, o))])),
                ('other installers', c.forall(2, lambda o, v: Imp(And(o != k, S.has(d, o), S.has(S.get(d, o), v)),
                                              H.dmap(S.get(S.get(d, o), v)) == S.dmap(S.get(S.get(d, o), v))),
                                              lambda o, v: [S.get(S.get(d, o), v)])),
                ('views of others', c.forall(3, lambda o, v, i: Imp(o != k, vw(H, o, v, i) == vw(S, o, v, i)),
                                             lambda o, v, i: [vw(H, o, v, i)]), ['assert:', 'def:OV']),
                ('same defaults', S.dmap(a.default_installers) == P.dmap(a.default_installers)),
                ('same os dict', Imp(S.has(d, k), H.get(d, k) == S.get(d, k))),
                ('input unchanged', Imp(P.has(a.default_installers, k), And(S.dmap(P.get(a.new_os_dict, k)) == P.dmap(P.get(a.new_os_dict, k)),
                                        c.forall(1, lambda v: Imp(P.has(P.get(a.new_os_dict, k), v),
                                                 S.dmap(P.get(P.get(a.new_os_dict, k), v)) == P.dmap(P.get(P.get(a.new_os_dict, k), v))),
                                                 lambda v: [P.get(P.get(a.new_os_dict, k), v)])))),
                ('input view', c.forall(2, lambda v, i: Imp(P.has(a.default_installers, k), ON(S, a.new_os_dict, k, v, P.get(a.default_installers, k), i) ==
                                        nv(k, v, i)), lambda v, i: [nv(k, v, i)]), ['assert:', 'def:ON', 'req:']),
                ('view of this', c.forall(2, lambda v, i: Imp(P.has(a.default_installers, k), vw(H, k, v, i) == over(
                    nv(k, v, i), vw(S, k, v, i))), lambda v, i: [vw(H, k, v, i)]),
                 ['assert:', 'post:', 'frame', 'loop1:inv:tree', 'def:OV', 'def:ON'])]
    loops = {0: inv0, 1: inv1}
    loophints = {1: hint1}
