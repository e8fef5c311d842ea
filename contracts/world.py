"""Interfaces of the plugin classes, and fields of the core classes.

The interface contracts are assumed of every plugin; repo classes which
implement part of them are verified against their own contracts.
"""
from contracts.common import *
from pyvc import types as T
from pyvc.db import Contract, contract

Bs = z3.BoolSort()


def ufb(name, *vs):
    return z3.Function(name, *([M.V] * len(vs) + [Bs]))(*vs)


def ufv(name, *vs):
    """answer of a plugin, a fixed value of class V"""
    return z3.Function(name, *([M.V] * len(vs) + [M.V]))(*vs)


def typed(H, v, t):
    return T.typed(H, v, T.parse(t))


def tfield(H, o, attr, t):
    """attribute attr of o has type t, elements included"""
    return typed(H, H.field(o, attr), t)


def never(c):
    return z3.BoolVal(False)


# ---------------------------------------------------------------- OS plugins
db.interface['OS'] = {'props': {'name': 'str', 'all_names': 'list[str]', 'default_installer': 'str?',
                                'known_versions': 'list[str]', 'version_less_fn': 'fun', 'options': 'any'}}
db.fields['OSOverride'] = {'os': 'OS', 'version': 'str'}
db.fields['InstallerContext'] = {
    'config': 'ConfigDict', 'os_support': 'OSSupport', 'installer_plugins': 'list[Installer]',
    'core_installers': 'list[Installer]', 'additional_installers': 'list[Installer]'}
db.fields['OSSupport'] = {'_os': 'OS?', 'os_plugins': 'list[OS]'}


def is_os(o):
    return ufb('os.is_os', o)


def version_known(o):
    return ufb('os.version detected', o)


def os_version(o):
    return ufv('os.version', o)


def method(key_, params_, result_='any', value=None, raises_=None, modifies_=None, allocs_=True, exc=None):
    @contract
    class m(Contract):
        key = 'iface:' + key_
        params = params_
        result = result_
        raises = raises_ or {}
        modifies = modifies_ or {}
        allocs = allocs_
        trusted = True

        def ensures(c):
            return value(c) if value else []

        def ens_exc(c, e):
            return exc(c, e) if exc else []
    return m


method('OS.is_os', ['self'], 'bool', lambda c: [('answer', c.res == M.vbool(is_os(c.a.self)))], allocs_=False)
method('OS.get_version', ['self'], 'str', lambda c: [('detected', version_known(c.a.self)), ('answer', c.res == os_version(c.a.self))],
       {'UnsupportedOSError': lambda c: Not(version_known(c.a.self)),
        'UnsupportedOSVersionError': lambda c: Not(version_known(c.a.self))}, allocs_=False)
method('OS.get_tuple', ['self'], 'tuple[str,str]', lambda c: [
    ('detected', version_known(c.a.self)),
    ('answer', c.res == M.vtuple([c.pre.field(c.a.self, 'name'), os_version(c.a.self)]))],
    {'UnsupportedOSError': lambda c: Not(version_known(c.a.self)),
     'UnsupportedOSVersionError': lambda c: Not(version_known(c.a.self))}, allocs_=False)
method('OS.get_all_tuples', ['self', 'version'], 'any', lambda c: [
    ('answer', c.res == ufv('os.get_all_tuples', c.a.self, c.a.version))])
method('OS.get_core_installers', ['self', 'version', 'options'], 'list[str]', lambda c: [
    ('answer', c.res == ufv('os.get_core_installers', c.a.self, c.a.version, c.a.options)),
    ('not a list of a context', M.forall(1, lambda r: And(*[z3.Select(c.post.comp('f.' + f), r) != c.res for f in (
        'core_installers', 'additional_installers')]), lambda r: [z3.Select(c.post.comp('f.core_installers'), r), z3.Select(
            c.post.comp('f.additional_installers'), r)], [M.I]))])
method('OS.options=set', ['self', 'value'], 'none', lambda c: [
    ('parsed', c.post.field(c.a.self, 'options') == ufv('os.parsed options', c.a.value))],
    modifies_={'f.options': lambda c, r: r == M.rid(c.a.self)})

# ---------------------------------------------------------------- installers
db.interface['Installer'] = {'props': {'name': 'str', 'options': 'any'}}
db.fields['ConfigDict'] = {'core_installers': 'list[str]?', 'use_additional_installers': 'bool', 'installer_options': 'dict',
                           'disabled_plugins': 'ConfigDict', 'os_override': 'tuple[any,str?]?', 'install_from': 'dict[any,list[str]?]'}


def offers(i, os_tuple, options):
    """the installer, with these options, offers itself as additional installer"""
    return ufb('installer.additional', i, os_tuple, options)


def entry(c, d, k):
    return c.get(d, STR(k))


method('Installer.options=set', ['self', 'value'], 'none', lambda c: [
    ('parsed', c.post.field(c.a.self, 'options') == ufv('installer.parsed options', c.a.value))],
    modifies_={'f.options': lambda c, r: r == M.rid(c.a.self)})
method('Installer.use_as_additional_installer', ['self', 'os_tuple'], 'bool', lambda c: [
    ('answer', c.res == M.vbool(offers(c.a.self, c.a.os_tuple, c.pre.field(c.a.self, 'options'))))], allocs_=False)


def cfg(H, conf, k):
    return H.get(conf, STR(k))


def wfconf(H, c):
    """configuration as produced by xylem.config for the installer context (P15)"""
    dp = cfg(H, c, 'disabled_plugins')
    return And(typed(H, c, 'ConfigDict'),
               typed(H, cfg(H, c, 'core_installers'), 'list[str]?'),
               typed(H, cfg(H, c, 'use_additional_installers'), 'bool'),
               typed(H, cfg(H, c, 'installer_options'), 'dict'),
               typed(H, cfg(H, c, 'os_override'), 'tuple[any,str?]?'), H.has(c, STR('os_options')),
               typed(H, cfg(H, c, 'install_from'), 'dict[any,list[str]?]'),
               typed(H, dp, 'ConfigDict'), H.has(dp, STR('os')), H.has(dp, STR('installer')))


@contract
class get_config(Contract):
    key = 'xylem.config:get_config'
    result = 'ConfigDict'
    trusted = True

    def ensures(c):
        return [('well formed', wfconf(c.post, c.res))]


def loader(key_, cls):
    @contract
    class load(Contract):
        key = key_
        types = {'disabled': 'any'}
        result = 'list[%s]' % cls
        raises = {'Exception': None}
        trusted = True

        def ensures(c):
            return [('fresh', M.rid(c.res) >= c.alloc0)]


loader('xylem.os_support.impl:load_os_plugins', 'OS')
loader('xylem.installers.impl:load_installer_plugins', 'Installer')
