"""Contracts for lookup and keys of the rules spec (specs/plugins/rules.py)."""
import types

from contracts.world import *
from contracts import os_support
from contracts import rules_lookup as RL
from contracts.rules_merge import okname, nodup, DI

RS = 'xylem.specs.plugins.rules:RulesSpec.'
ARGS = {'data': 'dict[any,dict[any,dict[any,dict]]]', 'installer_context': 'InstallerContext'}
I = M.I


def osof(c):
    return c.post.field(c.pre.field(c.a.installer_context, 'os_support'), '_os')


def wf(c):
    return [('os plugins', tfield(c.pre, c.pre.field(c.a.installer_context, 'os_support'), 'os_plugins', 'list[OS]'))]


def visited(c, o):
    """the installer maps read for os o do not name its default installer twice"""
    d = types.SimpleNamespace(pre=c.pre, a=types.SimpleNamespace(
        rules_dict=c.a.data, xylem_key=c.a.xylem_key, os_name=c.pre.field(o, 'name'), os_version=os_version(o)))
    return RL.visited(d, lambda idt: nodup(c.pre, idt, c.pre.field(o, 'default_installer')))


@contract
class lookup(Contract):
    key = RS + 'lookup'
    types = dict(ARGS, xylem_key='str')
    result = 'dict'
    raises = {'ValueError': None, 'UnsupportedOSError': None, 'UnsupportedOSVersionError': None}
    modifies = {'f._os': lambda c, r: r == M.rid(c.pre.field(c.a.installer_context, 'os_support'))}

    def requires(c):
        # no installer map names the default installer twice (see DESIGN.md)
        return wf(c) + [
            ('default names', M.forall(1, lambda o: c.pre.field(o, 'default_installer') != DI, lambda o: [c.pre.field(o, 'default_installer')])),
            ('no duplicate of default', M.forall(1, lambda o: visited(c, o), lambda o: [c.pre.field(o, 'default_installer')]))]

    def ensures(c):
        o, a = osof(c), c.a
        d = c.post.field(o, 'default_installer')
        n, v = c.post.field(o, 'name'), os_version(o)
        return [('fresh', M.rid(c.res) >= c.alloc0), ('detected', version_known(o)),
                ('rules of the current os', c.forall(1, lambda i: c.post.get(c.res, i) == over(*[
                    RL.rule(c.pre, a.data, a.xylem_key, x, y, d, i) for x, y in ((n, v), (n, RL.AV), (RL.AO, RL.AV))]),
                    lambda i: [c.post.get(c.res, i)]))]


@contract
class keys(Contract):
    key = RS + 'keys'
    types = ARGS
    result = 'list'
    raises = {'UnsupportedOSError': None, 'UnsupportedOSVersionError': None}
    modifies = {'f._os': lambda c, r: r == M.rid(c.pre.field(c.a.installer_context, 'os_support'))}
    requires = wf

    def ensures(c):
        o, H = osof(c), c.pre
        at, n = c.post.at, c.post.llen(c.res)
        d = lambda x: And(H.has(c.a.data, x), RL.defined(H, H.get(c.a.data, x), c.post.field(o, 'name'), os_version(o)))
        return [('fresh', M.rid(c.res) >= c.alloc0),
                ('every defined key', c.forall(1, lambda x: Imp(d(x), M.exists(
                    1, lambda j: And(j >= 0, j < n, at(c.res, j) == x), [I])), lambda x: [H.get(c.a.data, x)])),
                ('only defined keys', c.forall(1, lambda j: Imp(And(j >= 0, j < n), d(at(c.res, j))), lambda j: [at(c.res, j)], [I])),
                ('once', c.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < n), at(c.res, i) != at(c.res, j)),
                                  lambda i, j: [z3.MultiPattern(at(c.res, i), at(c.res, j))], [I, I]))]

    @staticmethod
    def inv(c):
        H, r = c.pre, c.l('result')
        at, n = c.h.at, c.h.llen(r)
        d = lambda x: And(c.done(x), RL.defined(H, H.get(c.a.data, x), c.l('os_name'), c.l('os_version')))
        return [('all', c.forall(1, lambda x: Imp(d(x), M.exists(
                    1, lambda j: And(j >= 0, j < n, at(r, j) == x), [I])), lambda x: [H.get(c.a.data, x), c.done(x)])),
                ('only', c.forall(1, lambda j: Imp(And(j >= 0, j < n), d(at(r, j))), lambda j: [at(r, j)], [I])),
                ('once', c.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < n), at(r, i) != at(r, j)),
                                  lambda i, j: [z3.MultiPattern(at(r, i), at(r, j))], [I, I]))]
    loops = {0: inv}
