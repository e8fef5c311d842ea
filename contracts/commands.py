"""Contracts for composing install commands (P21)."""
from contracts.world import *
from contracts.install import ok
from pyvc.theory import inlist, first, content

I = M.I
IB = 'xylem.installers.installer_base:'
SUDO = STR('sudo')
db.interface['InstallerBase'] = {'props': {'options': 'ConfigDict'}}
db.fields['ConfigDict'].update(as_root='bool', install_dir='any')
db.fields['Resolution'] = {'package': 'any'}
_euid = z3.Int('effective user id')


def h_euid(ex, st, args, kw, X, node):
    return [(st, E.SV(M.V.int(_euid), ('int',)))]


db.externals['os.geteuid'] = h_euid


def h_join(ex, st, args, kw, X, node):
    """Left to right, by the components of relative literals."""
    vs = [ex.sv(st, a) for a in args]
    for v in vs:
        st = ex.need(st, M.V.is_str(v.t), X, 'TypeError')
        if st is None:
            return []
    r = vs[0]
    for v in vs[1:]:
        x = E.str_lit(v.t)
        if x and '/' in x and not x.startswith('/') and not x.endswith('/') and '//' not in x:
            for y in x.split('/'):
                r = B.uf_str('path.join2', r.t, STR(y))
        else:
            r = B.uf_str('path.join2', r.t, v.t)
    return [(st, r)]


db.externals['os.path.join'] = h_join
# command k of those the installer composes for the resolutions
_NC = z3.Function('rs:plain commands', M.V, M.V, M.V, M.V, I)
_PC = z3.Function('rs:plain command', M.V, M.V, M.V, M.V, I, M.V)      # the list
ORD = ['resolved', 'interactive', 'reinstall']


def oargs(c):
    return [c.a.self] + [getattr(c.a, x) for x in ORD]


def nonempty(c, H, l):
    return c.forall(1, lambda i: Imp(ok(i, H.llen(l)), And(typed(H, H.at(l, i), 'list'), H.llen(H.at(l, i)) > 0)), lambda i: [
        H.at(l, i)], [I])


def plain(c, H, l):
    """list l has the commands the installer composed"""
    return [('number', H.llen(l) == _NC(*oargs(c))),
            ('commands', c.forall(1, lambda i: Imp(ok(i, H.llen(l)), H.at(l, i) == _PC(*(oargs(c) + [i]))), lambda i: [H.at(l, i)], [I]))]


method('InstallerBase.get_install_commands_no_root', ['self'] + ORD, 'list[list]', lambda c: plain(c, c.post, c.res) + [
    ('new', M.rid(c.res) >= c.alloc0),
    ('commands are not empty', nonempty(c, c.post, c.res))], raises_={'Exception': None})
db.contracts['iface:InstallerBase.get_install_commands_no_root'].defaults = {'interactive': True, 'reinstall': False}


def elevated(G, cmd, H, res):
    """res is command cmd as root: sudo and its arguments"""
    has = G.at(cmd, 0) == SUDO
    return And(H.at(res, 0) == SUDO, H.llen(res) == G.llen(cmd) + Ite(has, 0, 1), M.forall(1, lambda j: Imp(
        ok(j, G.llen(cmd)), H.at(res, j + Ite(has, 0, 1)) == G.at(cmd, j)), lambda j: [G.at(cmd, j)], [I]))


@contract
class elevate(Contract):
    key = IB + 'elevate_privileges'
    types = {'command': 'list'}
    result = 'list'

    def requires(c):
        return [('a command', c.pre.llen(c.a.command) > 0)]

    def ensures(c):
        return [('as root', elevated(c.pre, c.a.command, c.post, c.res)),
                ('only once', Or(c.post.llen(c.res) == 1, c.post.at(c.res, 1) != SUDO, And(
                    c.pre.at(c.a.command, 0) == SUDO, c.pre.at(c.a.command, 1) == SUDO)))]


def wfopt(c):
    o = c.pre.field(c.a.self, 'options')
    return [('options', And(typed(c.pre, o, 'ConfigDict'), typed(c.pre, c.pre.get(o, STR('as_root')), 'bool')))]


@contract
class commands(Contract):
    key = IB + 'InstallerBase.get_install_commands'
    types = {'self': 'InstallerBase', 'resolved': 'list', 'interactive': 'bool', 'reinstall': 'bool'}
    result = 'list[list]'
    raises = {'Exception': None}
    requires = wfopt

    def inv(c):
        r, H, G = c.l('$acc'), c.h, c.entry
        return [('number', H.llen(r) == c.idx),
                ('elevated', c.forall(1, lambda i: Imp(ok(i, c.idx), And(typed(H, H.at(r, i), 'list'), H.at(r, i) != r, elevated(
                    G, c.elem(i), H, H.at(r, i)))), lambda i: [H.at(r, i)], [I]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        H, r = c.post, c.res
        root = And(c.pre.get(c.pre.field(c.a.self, 'options'), STR('as_root')) == M.vbool(True), _euid != 0)
        g = c.call('InstallerBase.get_install_commands_no_root')
        if g is None:
            raise M.Unsupported('composition of commands')
        G = g.post
        return [('composed for these', And(*[x == y for x, y in zip(oargs(c), oargs(g))])),
                ('number', H.llen(r) == _NC(*oargs(c))), ('new', M.rid(r) >= c.alloc0),
                ('as root', Imp(root, c.forall(1, lambda i: Imp(ok(i, H.llen(r)), elevated(G, _PC(*(oargs(c) + [i])), H, H.at(r, i))), lambda i: [
                    H.at(r, i)], [I]))),
                ('unchanged', Imp(Not(root), c.forall(1, lambda i: Imp(ok(i, H.llen(r)), And(H.at(r, i) == _PC(*(oargs(c) + [i])),
                    content(H, H.at(r, i)) == content(G, H.at(r, i)))), lambda i: [H.at(r, i)], [I])))]


def named(c, H, r, names, n):
    def arg(i):
        p = c.pre.get(c.pre.at(c.a.resolved, i), STR('package'))
        return names(c, p) if names else p
    return [('names the package', c.forall(1, lambda i: Imp(ok(i, n), And(
        typed(H, H.at(r, i), 'list'), M.rid(H.at(r, i)) >= c.alloc0, H.at(r, i) != r, H.llen(H.at(r, i)) > 0, H.at(H.at(r, i), 0) != SUDO,
        inlist(H, H.at(r, i), arg(i)))), lambda i: [H.at(r, i)], [I]))]


def builtin(mod, cls, names=None):
    @contract
    class b(Contract):
        key = 'xylem.installers.plugins.%s:%s.get_install_commands_no_root' % (mod, cls)
        types = {'self': cls, 'resolved': 'list[Resolution]', 'interactive': 'bool', 'reinstall': 'bool'}
        result = 'list[list]'

        @staticmethod
        def inv(c):
            r, H, l = c.l('$acc'), c.h, c.a.resolved
            return [('number', H.llen(r) == c.idx)] + named(c, H, r, names, c.idx)
        loops = {0: inv}

        def requires(c):
            H, l = c.pre, c.a.resolved
            return [('packages', c.forall(1, lambda i: Imp(ok(i, H.llen(l)), M.V.is_str(H.get(H.at(l, i), STR('package')))), lambda i: [
                H.at(l, i)], [I]))] + (wfopt(c) + [('directory', M.V.is_str(c.pre.get(c.pre.field(c.a.self, 'options'), STR('install_dir'))))] if names else [])

        def ensures(c):
            H, r, l = c.post, c.res, c.a.resolved
            return [('one command per resolution', H.llen(r) == c.pre.llen(l)), ('new', M.rid(r) >= c.alloc0)] + named(
                c, H, r, names, H.llen(r))
    return b


builtin('apt', 'AptInstaller')
builtin('pip', 'PipInstaller')
builtin('homebrew', 'HomebrewInstaller')
builtin('macports', 'MacportsInstaller')
builtin('fake', 'FakeInstaller', lambda c, p: B.uf_str('path.join2', c.pre.get(c.pre.field(c.a.self, 'options'), STR('install_dir')), p).t)
