"""Contracts for the verification of expanded rules (sources/rules_dict.py)."""
from contracts.common import *
from pyvc.db import Contract, contract

RD = 'xylem.sources.rules_dict:'
DI, AV, AO = STR('default_installer'), STR('any_version'), STR('any_os')
PAT = r'(?u)^[\w.’+-]+\Z'
KEYWORDS = ['any_os', 'any_version', 'default_installer', 'unset_installers', 'any_key']
STRUCT = ('dm', 'll', 'le')


def ident(v, allowed=None):
    """valid identifier, `allowed`: the one reserved word that may stand here"""
    return And(M.V.is_str(v), And(*[v != STR(k) for k in KEYWORDS if k != allowed]),
               Or(v == STR(allowed) if allowed else z3.BoolVal(False), v == STR('mountain lion'), matches(PAT, v)))


okrule = M.opaque('okrule', [M.V], lambda H, r: And(
    H.isdict(r),
    M.forall(1, lambda k: Imp(H.has(r, k), M.V.is_str(k)), lambda k: [H.get(r, k)]),
    Imp(H.has(r, STR('packages')), H.islist(H.get(r, STR('packages')))),
    Imp(H.has(r, STR('depends')), And(
        H.islist(H.get(r, STR('depends'))),
        M.forall(1, lambda j: Imp(And(j >= 0, j < H.llen(H.get(r, STR('depends')))), ident(H.at(H.get(r, STR('depends')), j))),
                 lambda j: [H.at(H.get(r, STR('depends')), j)], [M.I])))), z3.BoolSort(), STRUCT)

okinst = M.opaque('okinst', [M.V, z3.BoolSort()], lambda H, d, allow: And(
    H.isdict(d),
    M.forall(1, lambda i: Imp(H.has(d, i), And(Or(allow, i != DI), ident(i, 'default_installer'), okrule(H, H.get(d, i)))),
             lambda i: [H.get(d, i)])), z3.BoolSort(), STRUCT)

okver = M.opaque('okver', [M.V, z3.BoolSort()], lambda H, d, allow: And(
    H.isdict(d),
    M.forall(1, lambda v: Imp(H.has(d, v), And(ident(v, 'any_version'), okinst(H, H.get(d, v), allow))),
             lambda v: [H.get(d, v)])), z3.BoolSort(), STRUCT)

okos = M.opaque('okos', [M.V, z3.BoolSort()], lambda H, d, allow: And(
    H.isdict(d),
    M.forall(1, lambda o: Imp(H.has(d, o), And(ident(o, 'any_os'), okver(H, H.get(d, o), And(allow, o != AO)))),
             lambda o: [H.get(d, o)])), z3.BoolSort(), STRUCT)

okrules = M.opaque('okrules', [M.V, z3.BoolSort()], lambda H, d, allow: And(
    H.isdict(d),
    M.forall(1, lambda x: Imp(H.has(d, x), And(ident(x), okos(H, H.get(d, x), allow))),
             lambda x: [H.get(d, x)])), z3.BoolSort(), STRUCT)


def names(fn, param, allowed):
    @contract
    class c_(Contract):
        key = RD + fn
        types = {param: 'any'}
        result = 'none'
        raises = {'ValueError': lambda c: Not(ident(c.a[param], allowed))}

        def ensures(c):
            return [('valid', ident(c.a[param], allowed))]


names('verify_xylem_key', 'xylem_key', None)
names('verify_os_name', 'os_name', 'any_os')
names('verify_os_version', 'os_version', 'any_version')
names('verify_installer_name', 'installer_name', 'default_installer')


@contract
class verify_installer_rule(Contract):
    key = RD + 'verify_installer_rule'
    types = {'installer_rule': 'any'}
    result = 'none'
    raises = {'ValueError': lambda c: Not(okrule(c.pre, c.a.installer_rule))}

    def ensures(c):
        return [('well formed', okrule(c.pre, c.a.installer_rule))]

    @staticmethod
    def inv0(c):
        r = c.a.installer_rule
        dep = c.pre.get(r, STR('depends'))
        return [('text keys', c.forall(1, lambda k: Imp(c.done(k), M.V.is_str(k)), lambda k: [c.done(k)])),
                ('packages', Imp(c.done(STR('packages')), c.pre.islist(c.pre.get(r, STR('packages'))))),
                ('depends', Imp(c.done(STR('depends')), And(c.pre.islist(dep), c.forall(
                    1, lambda j: Imp(And(j >= 0, j < c.pre.llen(dep)), ident(c.pre.at(dep, j))),
                    lambda j: [c.pre.at(dep, j)], [M.I]))))]

    @staticmethod
    def inv1(c):
        return [('keys', c.forall(1, lambda j: Imp(And(j >= 0, j < c.idx), ident(c.elem(j))),
                                  lambda j: [c.elem(j)], [M.I]))]
    loops = {0: inv0, 1: inv1}


def level(fn, param, ok, allowed_key, child, allow=True):
    def al(c):
        return M.V.b(c.a.allow_default_installer)

    @contract
    class c_(Contract):
        key = RD + fn
        types = {param: 'any', 'allow_default_installer': 'bool'}
        result = 'none'
        raises = {'ValueError': lambda c: Not(ok(c.pre, c.a[param], al(c)))}

        def ensures(c):
            return [('well formed', ok(c.pre, c.a[param], al(c)))]

        @staticmethod
        def inv(c):
            d = c.a[param]
            return [('entries', c.forall(1, lambda k: Imp(c.done(k), And(
                ident(k, allowed_key), child(c.pre, c.pre.get(d, k), k, al(c)))), lambda k: [c.done(k)]))]
        loops = {0: inv}


level('verify_installer_dict', 'installer_dict', okinst, 'default_installer',
      lambda H, r, i, al: And(Or(al, i != DI), okrule(H, r)))
level('verify_version_dict', 'version_dict', okver, 'any_version', lambda H, d, v, al: okinst(H, d, al))
level('verify_os_dict', 'os_dict', okos, 'any_os', lambda H, d, o, al: okver(H, d, And(al, o != AO)))
level('verify_rules_dict', 'rules_dict', okrules, None, lambda H, d, x, al: okos(H, d, al))
