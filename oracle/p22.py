import itertools
from common import *
RULE = 'all combinations of installed-before, installed-after, up-to-date (before, after), support for installing/updating/checking, fix and interactive flags; plus builtin installers without support'
EXHAUSTIVE = 'all flag combinations'


def c_check(inp):
    before, after, inst, upd, upd_after, upsup, fix, inter, general = inp
    P = need('xylem.installers.package_manager_installer:PackageManagerInstaller')
    IPE = need('xylem.installers.impl:InstallerPrerequisiteError')
    log = []

    class I(P):
        name = 'pm'

        def __init__(self):
            super(I, self).__init__('xx-none')
            self.st = before
            self.up = upd

        def is_package_manager_installed(self):
            return self.st

        def is_package_manager_updated(self):
            if self.up == 'ni':
                raise NotImplementedError()
            return self.up

        def install_package_manager(self, os_tuple, interactive=True):
            log.append(('install', os_tuple, interactive))
            if inst == 'ni':
                raise NotImplementedError()
            self.st = after

        def update_package_manager(self, interactive=True):
            log.append(('update', interactive))
            if upsup == 'ni':
                raise NotImplementedError()
            self.up = upd_after
        filter_uninstalled = get_install_commands_no_root = lambda self, *a, **k: None
    i = I()
    ost = ('ubuntu', 'lucid')
    f = i.check_general_prerequisites if general else i.check_package_manager_installed
    g = outcome(f, ost, fix, inter)
    ok = before or (fix and inst != 'ni' and after)
    if g[0] == 'exc' and (ok or not isinstance(g[1], IPE)):
        return fail('raised %s', exc_name(g))
    if g[0] == 'ok' and not ok:
        return fail('check passes without package manager')
    ni = [x for x in log if x[0] == 'install']
    nu = [x for x in log if x[0] == 'update']
    if ni != ([('install', ost, inter)] if fix and not before else []):
        return fail('install attempts %r', log)
    want = [('update', inter)] if general and ok and fix and upd is False else []
    if nu != want:
        return fail('update attempts %r', log)


def c_builtin(inp):
    cls, fix, inter, kw = inp
    C = need('xylem.installers.plugins.' + cls.replace('.', ':'))
    IPE = need('xylem.installers.impl:InstallerPrerequisiteError')

    class D(C):
        is_package_manager_installed = lambda self: False
    i = D()
    g = outcome(i.check_general_prerequisites, ('ubuntu', 'lucid'), fix_unsatisfied=fix, interactive=inter) if kw else \
        outcome(i.check_general_prerequisites, ('ubuntu', 'lucid'), fix, inter)
    if g[0] == 'ok' or not isinstance(g[1], IPE):
        return fail('%s instead of prerequisite error', g)

    class E(C):
        is_package_manager_installed = lambda self: True
        install_package_manager = lambda self, *a, **k: 1 / 0
    g = outcome(E().check_general_prerequisites, ('ubuntu', 'lucid'), fix, inter)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))


def c_fake(inp):
    """the shipped fake installer creates its directory when asked to"""
    import os
    fix, pre = inp
    C = need('xylem.installers.plugins.fake:FakeInstaller')
    IPE = need('xylem.installers.impl:InstallerPrerequisiteError')
    import shutil
    d = os.path.join(os.environ['VERIF_WORK'], 'p22fake')
    shutil.rmtree(d, ignore_errors=True)
    if pre == 'dir':
        os.makedirs(d)
    elif pre == 'file':
        open(d, 'w').close()
    i = C()
    i.options = {'install_dir': d}
    try:
        g = outcome(i.check_general_prerequisites, ('ubuntu', 'lucid'), fix, True)
        ok = pre == 'dir' or (fix and pre == 'none')
        if (g[0] == 'ok') != ok or (g[0] == 'exc' and not isinstance(g[1], IPE)):
            return fail('%s', g)
        if ok != os.path.isdir(d):
            return fail('directory %s', os.path.isdir(d))
    finally:
        if os.path.isfile(d):
            os.unlink(d)
        shutil.rmtree(d, ignore_errors=True)


def c_program(inp):
    """a program that cannot be started is not installed"""
    import os
    kind = inp
    f = need('xylem.util:is_program_installed')
    p = os.path.join(os.environ['VERIF_WORK'], 'p22prog')
    if os.path.exists(p):
        os.unlink(p)
    if kind in ('exec', 'failing'):
        with open(p, 'w') as h:
            h.write('#!/bin/sh\nexit %d\n' % (kind == 'failing'))
        os.chmod(p, 0o755)
    elif kind == 'noexec':
        with open(p, 'w') as h:
            h.write('#!/bin/sh\n')
        os.chmod(p, 0o644)
    g = outcome(f, p)
    if g[0] == 'exc' or bool(g[1]) != (kind in ('exec', 'failing')):
        return fail('%s: %s', kind, g)


CASES = dict(check=c_check, builtin=c_builtin, fake=c_fake, program=c_program)


def gen(rng, tier):
    B = (True, False)
    for t in itertools.product(B, B, ('yes', 'ni'), (True, False, 'ni'), (True, False, 'ni'), ('yes', 'ni'), B, B, B):
        yield 'check', t
    for cls in ('apt.AptInstaller', 'pip.PipInstaller', 'homebrew.HomebrewInstaller', 'macports.MacportsInstaller'):
        for t in itertools.product(B, B, B):
            yield 'builtin', (cls,) + t
    for t in itertools.product(B, ('dir', 'none', 'file')):
        yield 'fake', t
    for k in ('exec', 'failing', 'noexec', 'missing'):
        yield 'program', k
