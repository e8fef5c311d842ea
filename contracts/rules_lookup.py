"""Contracts for lookup in one rules source (sources/rules_dict.py, specs/plugins/rules.py)."""
from contracts.common import *
from contracts.rules_merge import okname, eff, nodup, RD, DI, AV, AO
from contracts.rules_verify import okrules, okos, okver, okinst
from pyvc.db import Contract, contract

T = z3.BoolVal(True)


def sub(H, d, k, f):
    """entry k of d (no entry: of the empty dict), then f"""
    return lambda i: Ite(H.has(d, k), f(H.get(d, k))(i), ABSENT)


def rule(H, d, key, os_, ver, dname, i):
    """effective rule for installer i under exactly key/os/version"""
    return sub(H, d, key, lambda osd: sub(H, osd, os_, lambda vd: sub(H, vd, ver, lambda idt: lambda i: eff(H, idt, dname, i))))(i)


def raw(H, d, key, os_, ver, i):
    return sub(H, d, key, lambda osd: sub(H, osd, os_, lambda vd: sub(H, vd, ver, lambda idt: lambda i: H.get(idt, i))))(i)


def three(c):
    a = c.a
    return [(a.os_name, a.os_version), (a.os_name, AV), (AO, AV)]


def needs_default(c):
    a = c.a
    return Or(*[raw(c.pre, a.rules_dict, a.xylem_key, o, v, DI) != ABSENT for o, v in three(c)])


def visited(c, f):
    """f holds for the installer dicts a lookup reads"""
    H, a = c.pre, c.a
    osd = H.get(a.rules_dict, a.xylem_key)
    return And(*[Imp(And(H.has(a.rules_dict, a.xylem_key), H.has(osd, o), H.has(H.get(osd, o), v)),
                     f(H.get(H.get(osd, o), v))) for o, v in three(c)])


@contract
class lookup_rules(Contract):
    key = RD + 'lookup_rules'
    types = {'rules_dict': 'dict[any,dict[any,dict[any,dict]]]', 'xylem_key': 'str', 'os_name': 'str', 'os_version': 'str', 'default_installer': 'str?'}
    result = 'dict'
    raises = {'ValueError': lambda c: And(needs_default(c), Not(okname(c.a.default_installer)))}

    def requires(c):
        a = c.a
        return [('default name', a.default_installer != DI),
                ('no duplicate of default', visited(c, lambda idt: nodup(c.pre, idt, a.default_installer)))]

    def ensures(c):
        a = c.a
        return [('fresh', M.rid(c.res) >= c.alloc0),
                ('default is named', Or(Not(needs_default(c)), okname(a.default_installer))),
                ('specific over generic', c.forall(1, lambda i: c.post.get(c.res, i) == over(*[
                    rule(c.pre, a.rules_dict, a.xylem_key, o, v, a.default_installer, i) for o, v in three(c)]),
                    lambda i: [c.post.get(c.res, i)]))]


@contract
class has_rule_for_os(Contract):
    key = RD + 'has_rule_for_os'
    types = {'os_dict': 'dict[any,dict]', 'os_name': 'str', 'os_version': 'str'}
    result = 'bool?'

    def ensures(c):
        H, a = c.pre, c.a
        return [('defined', (c.res == M.vbool(True)) == defined(H, a.os_dict, a.os_name, a.os_version))]


def defined(H, osd, o, v):
    vd = H.get(osd, o)
    return Or(H.has(osd, AO), And(H.has(osd, o), Or(H.has(vd, v), H.has(vd, AV))))
