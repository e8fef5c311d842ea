"""Contracts for the installer context (installers/impl.py)."""
import types

from contracts.world import *
from contracts import os_support as OS
from pyvc.theory import Filter

II = 'xylem.installers.impl:'
I, A = M.I, z3.ArraySort(M.I, M.V)


def fnd(name, seq, n, x):
    """the first of the n plugins named x, None if there is none"""
    return z3.Function('plugin named', A, M.SeqS, I, M.V, M.V)(name, seq, n, x)


def _fnd_def():
    nm, s, n, x, j = z3.Const('nm', A), z3.Const('s', M.SeqS), z3.Int('n'), z3.Const('x', M.V), z3.Int('j')
    named = lambda j: z3.Select(nm, M.V.r(z3.Select(s, j))) == x
    t = fnd(nm, s, n, x)
    w = z3.Function('index named', A, M.SeqS, I, M.V, I)(nm, s, n, x)
    none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(named(j))), patterns=[z3.Select(s, j)])
    first = z3.And(w >= 0, w < n, t == z3.Select(s, w), named(w), t != NONE, t != ABSENT,
                   z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < w), z3.Not(named(j))), patterns=[z3.Select(s, j)]))
    # plugins are objects: no element of the list is None
    return z3.ForAll([nm, s, n, x], z3.Implies(
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), M.V.is_ref(z3.Select(s, j)))),
        z3.Or(z3.And(t == NONE, none), first)), patterns=[t])


M.OPAQUE['plugin named'] = _fnd_def()


def plugins(c):
    return c.pre.field(c.a.self, 'installer_plugins')


def find(c, x):
    p = plugins(c)
    return fnd(c.pre.comp('f.name'), c.pre.lseq(p), c.pre.llen(p), x)


def wf(c):
    return [('plugins', tfield(c.pre, c.a.self, 'installer_plugins', 'list[Installer]'))]


@contract
class lookup_installer(Contract):
    key = II + 'InstallerContext.lookup_installer'
    types = {'name': 'any'}
    result = 'Installer?'
    allocs = False
    requires = wf

    def ensures(c):
        return [('first plugin of that name, or None', c.res == find(c, c.a.name))]

    @staticmethod
    def inv(c):
        p = plugins(c)
        return [('none so far', c.forall(1, lambda j: Imp(And(j >= 0, j < c.idx), c.pre.field(c.pre.at(p, j), 'name') != c.a.name),
                                         lambda j: [c.pre.at(p, j)], [I]))]
    loops = {0: inv}


# names[j] is the name of a loaded plugin
found = Filter('found', [A, M.SeqS, I, M.SeqS], lambda nm, ps, n, names, j: fnd(nm, ps, n, z3.Select(names, j)) != NONE)
# plugin j offers itself and is not core
extra = Filter('extra', [A, M.SeqS, M.SeqS, I, M.V], lambda opts, ps, core, ncore, tup, j: And(
    offers(z3.Select(ps, j), tup, z3.Select(opts, M.V.r(z3.Select(ps, j)))),
    z3.Not(z3.Exists([z3.Int('k!extra')], z3.And(z3.Int('k!extra') >= 0, z3.Int('k!extra') < ncore,
                                                z3.Select(core, z3.Int('k!extra')) == z3.Select(ps, j))))))


def conf(c, k, H=None):
    H = H or c.pre
    return cfg(H, H.field(c.a.self, 'config'), k)


def the_os(H, self):
    return H.field(H.field(self, 'os_support'), '_os')


def os_tuple(H, self):
    return M.vtuple([H.field(the_os(H, self), 'name'), os_version(the_os(H, self))])


def core_names(H, self):
    o = the_os(H, self)
    k = cfg(H, H.field(self, 'config'), 'core_installers')
    return Ite(k != NONE, k, ufv('os.get_core_installers', o, os_version(o), H.field(o, 'options')))


def options_set(H, self, j):
    """plugin j has the options configured for its name (none: an empty dict)"""
    p = H.at(H.field(self, 'installer_plugins'), j)
    own = H.get(cfg(H, H.field(self, 'config'), 'installer_options'), H.field(p, 'name'))
    return M.exists(1, lambda v: And(H.field(p, 'options') == ufv('installer.parsed options', v), Ite(
        own != ABSENT, v == own, And(H.isdict(v), H.empty(v)))))


def set_up(H, self):
    """the installers are set up as the configuration, the OS and the plugins say"""
    p, names = H.field(self, 'installer_plugins'), core_names(H, self)
    core, add = H.field(self, 'core_installers'), H.field(self, 'additional_installers')
    n = H.llen(p)
    fa = [H.comp('f.name'), H.lseq(p), n, H.lseq(names)]
    ea = [H.comp('f.options'), H.lseq(p), H.lseq(core), H.llen(core), os_tuple(H, self)]
    plug = lambda j: H.at(p, j)
    find = lambda x: fnd(H.comp('f.name'), H.lseq(p), n, x)
    yes = cfg(H, H.field(self, 'config'), 'use_additional_installers') == M.vbool(True)
    return [('options', M.forall(1, lambda j: Imp(And(j >= 0, j < n), options_set(H, self, j)), lambda j: [plug(j)], [I]))] + \
        [('core ' + l, b) for l, b in found.is_(H, core, fa, H.llen(names), lambda j: find(H.at(names, j)))] + \
        [('additional ' + l, Imp(yes, b)) for l, b in extra.is_(H, add, ea, n, plug)] + \
        [('additional disabled', Imp(Not(yes), H.llen(add) == 0))]


@contract
class setup_installers(Contract):
    key = II + 'InstallerContext.setup_installers'
    result = 'none'
    raises = {'UnsupportedOSError': None, 'UnsupportedOSVersionError': None}
    modifies = {'f._os': lambda c, r: r == M.rid(c.pre.field(c.a.self, 'os_support')),
                'f.core_installers': lambda c, r: r == M.rid(c.a.self),
                'f.additional_installers': lambda c, r: r == M.rid(c.a.self),
                'f.options': lambda c, r: M.exists(1, lambda j: And(j >= 0, j < c.pre.llen(plugins(c)), r == M.rid(
                    c.pre.at(plugins(c), j))), [I])}

    def requires(c):
        s = c.pre.field(c.a.self, 'os_support')
        return wf(c) + [
            ('os plugins', tfield(c.pre, s, 'os_plugins', 'list[OS]')),
            ('config', wfconf(c.pre, c.pre.field(c.a.self, 'config')))]

    def ensures(c):
        return set_up(c.post, c.a.self) + [('lists', And(*[typed(c.post, c.post.field(c.a.self, f), 'list[Installer]') for f in (
            'core_installers', 'additional_installers')]))]

    def inv_options(c):
        return [('options', c.forall(1, lambda j: Imp(And(j >= 0, j < c.idx), options_set(c.h, c.a.self, j)),
                                     lambda j: [c.pre.at(plugins(c), j)], [I]))]

    def inv_core(c):
        p, core = plugins(c), c.h.field(c.a.self, 'core_installers')
        fa = [c.pre.comp('f.name'), c.pre.lseq(p), c.pre.llen(p), c.seq]
        return found.is_(c.h, core, fa, c.idx, lambda j: find(c, c.elem(j)))

    def inv_add(c):
        p = plugins(c)
        core, add = c.h.field(c.a.self, 'core_installers'), c.h.field(c.a.self, 'additional_installers')
        ea = [c.h.comp('f.options'), c.pre.lseq(p), c.h.lseq(core), c.h.llen(core), c.l('os_tuple')]
        return extra.is_(c.h, add, ea, c.idx, lambda j: c.pre.at(p, j))
    loops = {0: staticmethod(inv_options), 1: staticmethod(inv_core), 2: staticmethod(inv_add)}


@contract
class os_support_init(Contract):
    key = 'xylem.os_support.impl:OSSupport.__init__'
    types = {'disabled': 'any'}
    result = 'none'
    raises = {'Exception': None}
    modifies = {'f._os': lambda c, r: r == M.rid(c.a.self), 'f.os_plugins': lambda c, r: r == M.rid(c.a.self)}

    def ensures(c):
        return [('nothing detected', c.post.field(c.a.self, '_os') == NONE),
                ('plugins', tfield(c.post, c.a.self, 'os_plugins', 'list[OS]'))]


@contract
class setup_os(Contract):
    key = II + 'InstallerContext.setup_os'
    result = 'none'
    raises = {'Exception': None}
    modifies = {'f.os_support': lambda c, r: r == M.rid(c.a.self), 'f.options': None}

    def requires(c):
        return [('config', wfconf(c.pre, c.pre.field(c.a.self, 'config')))]

    def ensures(c):
        H, s = c.post, c.post.field(c.a.self, 'os_support')
        ov = conf(c, 'os_override')
        cur = H.field(s, '_os')
        d = types.SimpleNamespace(pre=H, a=types.SimpleNamespace(self=s, os_tuple=ov))
        o, v = H.field(cur, 'os'), M.V.t2b(ov)
        return [('plugins', And(M.rid(s) >= c.alloc0, H.inst(s, 'OSSupport'), tfield(H, s, 'os_plugins', 'list[OS]'))),
                ('detected', Imp(ov == NONE, OS.chosen(d, cur, OS.nplug(d)))),
                ('overridden', Imp(ov != NONE, And(
                    H.inst(cur, 'OSOverride'), OS.named(d, o, OS.nplug(d)),
                    Ite(v == NONE, And(version_known(o), H.field(cur, 'version') == os_version(o)),
                        And(OS.ends(d, v, H.field(o, 'known_versions')), H.field(cur, 'version') == v))))),
                ('options', H.field(cur, 'options') == ufv('os.parsed options', conf(c, 'os_options')))]


@contract
class init(Contract):
    key = II + 'InstallerContext.__init__'
    types = {'config': 'ConfigDict?', 'os_support': 'OSSupport?', 'setup_installers': 'bool'}
    result = 'none'
    raises = {'Exception': None}
    modifies = dict([('f.' + f, lambda c, r: r == M.rid(c.a.self)) for f in (
        'config', 'os_support', 'installer_plugins', 'core_installers', 'additional_installers')] + [
            ('f.options', None), ('f._os', lambda c, r: And(c.a.os_support != NONE, r == M.rid(c.a.os_support)))])

    def requires(c):
        return [('config', Imp(c.a.config != NONE, wfconf(c.pre, c.a.config))),
                ('os plugins', Imp(c.a.os_support != NONE, tfield(c.pre, c.a.os_support, 'os_plugins', 'list[OS]')))]

    def ensures(c):
        H, s, yes = c.post, c.a.self, c.a.setup_installers == M.vbool(True)
        return [('config', Imp(c.a.config != NONE, H.field(s, 'config') == c.a.config)),
                ('os support', Imp(c.a.os_support != NONE, H.field(s, 'os_support') == c.a.os_support)),
                ('not set up', Imp(Not(yes), And(H.llen(H.field(s, 'core_installers')) == 0,
                                                 H.llen(H.field(s, 'additional_installers')) == 0)))] + \
            [(l, Imp(yes, b)) for l, b in set_up(H, s)]


def names_of(c, l, r):
    return And(c.post.llen(r) == c.pre.llen(l), M.forall(1, lambda j: Imp(And(j >= 0, j < c.pre.llen(l)), c.post.at(r, j) == c.pre.field(
        c.pre.at(l, j), 'name')), lambda j: [c.post.at(r, j)], [I]))


def names(prop, field):
    @contract
    class n(Contract):
        key = II + 'InstallerContext.' + prop
        result = 'list[str]'

        def requires(c):
            return [('installers', tfield(c.pre, c.a.self, field, 'list[Installer]'))]

        def ensures(c):
            return [('names', names_of(c, c.pre.field(c.a.self, field), c.res))]


names('core_installer_names', 'core_installers')
names('additional_installer_names', 'additional_installers')
names('installer_plugin_names', 'installer_plugins')


@contract
class ensure_installer_context(Contract):
    key = II + 'ensure_installer_context'
    types = {'installer_context': 'any', 'config': 'any'}
    result = 'InstallerContext'
    raises = {'Exception': lambda c: Or(c.a.installer_context == NONE, Not(typed(c.pre, c.a.installer_context, 'InstallerContext')))}
    modifies = {'f.options': None}

    def requires(c):
        return [('config', Imp(c.a.installer_context == NONE, wfconf(c.pre, c.a.config)))]

    def ensures(c):
        return [('given', Imp(c.a.installer_context != NONE, And(
            c.res == c.a.installer_context, c.pre.inst(c.res, 'InstallerContext')))),
            ('new', Imp(c.a.installer_context == NONE, And(M.rid(c.res) >= c.alloc0, *[b for _, b in set_up(c.post, c.res)])))]
