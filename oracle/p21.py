import itertools
import os
from common import *
RULE = 'root / not root x as_root option x command lists (0-4 commands, some already elevated); the builtin installers with up to 4 resolutions; all flag combinations'


class uid(object):
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = (os.geteuid, os.getuid)
        os.geteuid = lambda: self.n
        os.getuid = lambda: self.n

    def __exit__(self, *a):
        os.geteuid, os.getuid = self.old


def wanted(cmds, elevate):
    return [(['sudo'] + list(c) if elevate and c[0] != 'sudo' else list(c)) for c in cmds]


def c_generic(inp):
    cmds, as_root, euid, inter, reinst = inp
    IB = need('xylem.installers.installer_base:InstallerBase')
    seen = []

    class I(IB):
        name = 'gen'

        def get_install_commands_no_root(self, resolved, interactive=True, reinstall=False):
            seen.append((resolved, interactive, reinstall))
            return dc(cmds)
        filter_uninstalled = check_general_prerequisites = check_install_prerequisites = lambda self, *a, **k: None
    i = I()
    if as_root is not None:
        i.options = {'as_root': as_root}
    res = ['r1', 'r2']
    with uid(euid):
        g = outcome(i.get_install_commands, res, inter, reinst)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    want = wanted(cmds, as_root is not False and euid != 0)
    if [list(c) for c in g[1]] != want:
        return fail('commands %r, expected %r', g[1], want)
    if seen != [(res, inter, reinst)]:
        return fail('composed for %r', seen)


BUILTIN = {'apt.AptInstaller': (['apt-get', 'install'], True), 'pip.PipInstaller': (['pip', 'install', '-U'], True),
           'homebrew.HomebrewInstaller': (['brew', 'install'], False), 'macports.MacportsInstaller': (['port', 'install'], True)}


def c_builtin(inp):
    cls, pkgs, as_root, euid, inter, reinst = inp
    C = need('xylem.installers.plugins.' + cls.replace('.', ':'))
    i = C()
    if as_root is not None:
        i.options = {'as_root': as_root}
    g = outcome(i.resolve, {'packages': dc(pkgs)})
    if g[0] == 'exc':
        return fail('resolve raised %s', exc_name(g))
    with uid(euid):
        g2 = outcome(i.get_install_commands, g[1], inter, reinst)
        g3 = outcome(i.get_install_commands_no_root, g[1], inter, reinst)
    for h in (g2, g3):
        if h[0] == 'exc':
            return fail('raised %s', exc_name(h))
        if len(h[1]) != len(pkgs):
            return fail('%d commands for %d resolutions', len(h[1]), len(pkgs))
    if cls in BUILTIN:
        ar = BUILTIN[cls][1] if as_root is None else as_root
        for c, p in zip(g3[1], pkgs):
            if p not in c or c[0] == 'sudo':
                return fail('command %r does not name %r', c, p)
    else:
        ar = bool(as_root)
        for c, p in zip(g3[1], pkgs):
            if not any(x.endswith(p) for x in c):
                return fail('command %r does not name %r', c, p)
    want = wanted(g3[1], ar and euid != 0)
    if [list(c) for c in g2[1]] != want:
        return fail('commands %r, expected %r', g2[1], want)


def c_elev(cmd):
    f = need('xylem.installers.installer_base:elevate_privileges')
    c0 = list(cmd)
    g = outcome(f, cmd)
    if g[0] == 'exc' or list(g[1]) != wanted([c0], True)[0]:
        return fail('%r gives %s', c0, g)
    if cmd != c0:
        return fail('modified %r', cmd)
    h = outcome(f, g[1])
    if h[0] == 'exc' or list(h[1]) != list(g[1]):
        return fail('twice: %s', h)


CASES = dict(generic=c_generic, builtin=c_builtin, elev=c_elev)


def gen(rng, tier):
    pool = [['a'], ['sudo', 'b'], ['apt-get', 'install', 'x'], ['sudo'], ['x', 'sudo'], ['sudo', 'sudo', 'y'], ['sudoedit', 'f'], ['/usr/bin/sudo', 'z'], ['SUDO']]
    for c in pool:
        yield 'elev', c
    for euid in (0, 1000, 1):
        for ar in (None, True, False):
            for a, b in itertools.product((True, False), repeat=2):
                for c in pool:
                    yield 'generic', ([c], ar, euid, a, b)
                for k in (0, 2, 3, 4):
                    yield 'generic', ([rng.choice(pool) for _ in range(k)], ar, euid, a, b)
                for cls in list(BUILTIN) + ['fake.FakeInstaller']:
                    for pk in ([], ['p'], ['p', 'q'], ['p', 'p'], ['sudo', 'z-1', 'lib++', 'a']):
                        yield 'builtin', (cls, pk, ar, euid, a, b)
