"""Fake installers and contexts shared by the oracles."""
from common import *


def mkctx(plugins, core=(), additional=(), os_tuple=('ubuntu', 'lucid')):
    IC = need('xylem.installers.impl:InstallerContext')

    class Ctx(IC):
        def __init__(self):
            self.installer_plugins = list(plugins)
            byname = {p.name: p for p in plugins}
            self.core_installers = [byname[n] for n in core]
            self.additional_installers = [byname[n] for n in additional]
            self.config = Rec()

        def get_os_tuple(self):
            return os_tuple

        def get_os_string(self):
            return '%s:%s' % os_tuple

        def get_default_installer_name(self):
            return core[0] if core else None
    return Ctx()


def config(**k):
    f = need('xylem.config:get_default_config')
    c = f()
    for a, b in k.items():
        c[a] = b
    return c
