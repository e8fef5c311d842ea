import itertools
from common import *
RULE = 'fake OS and installer plugin sets with random configuration (core list set/unset/unknown names/duplicates, options, additional on/off)'


class FakeInst(object):
    def __init__(self, name, additional, log):
        self.name, self.additional, self.log, self._o = name, additional, log, None

    @property
    def options(self):
        return self._o

    @options.setter
    def options(self, v):
        self.log.append(('options', self.name))
        self._o = v

    def use_as_additional_installer(self, os_tuple):
        self.log.append(('query', self.name, os_tuple))
        return self.additional and self._o is not None


class FakeOS(object):
    name = 'theos'

    def __init__(self, core, log):
        self.core, self.options, self.log = core, {'features': ['f']}, log
        self.default_installer = 'x'

    def get_tuple(self):
        return ('theos', '7')

    def get_version(self):
        return '7'

    def get_core_installers(self, version, options):
        self.log.append(('core', version, options))
        return list(self.core)


def c_setup(inp):
    plugins, oscore, cfgcore, useadd, opts, again = inp
    log = []
    plugs = [FakeInst(n, a, log) for n, a in plugins]
    m = need('xylem.installers.impl')
    IC = need('xylem.installers.impl:InstallerContext')
    os_ = FakeOS(oscore, log)
    cfg = Rec(core_installers=cfgcore, use_additional_installers=useadd, installer_options=dict(opts),
              disabled_plugins=Rec(installer=['dis'], os=[], spec=[]), os_override=None, os_options={})
    old = m.load_installer_plugins
    seen = []

    def fake(disabled=[]):
        seen.append(list(disabled))
        return list(plugs)
    m.load_installer_plugins = fake
    try:
        g = outcome(IC, cfg, Rec(current_os=os_))
        if g[0] == 'ok' and again:
            g2 = outcome(g[1].setup_installers)
            if g2[0] == 'exc':
                return fail('second setup raised %s', exc_name(g2))
    finally:
        m.load_installer_plugins = old
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    ic = g[1]
    if seen != [['dis']]:
        return fail('disabled plugins passed: %r', seen)
    names = [n for n, _ in plugins]
    src = cfgcore if cfgcore is not None else oscore
    core = [n for n in src if n in names]
    if [i.name for i in ic.core_installers] != core:
        return fail('core installers %r, expected %r', [i.name for i in ic.core_installers], core)
    if cfgcore is None:
        q = [x for x in log if x[0] == 'core']
        if not q or any(x[1:] != ('7', {'features': ['f']}) for x in q):
            return fail('OS asked with %r', q)
    add = [n for n, a in plugins if a and n not in core] if useadd else []
    if [i.name for i in ic.additional_installers] != add:
        if sorted(i.name for i in ic.additional_installers) != sorted(add):
            return fail('additional installers %r, expected %r', [i.name for i in ic.additional_installers], add)
    od = dict(opts)
    for p in plugs:
        w = od.get(p.name, {})
        if p._o != w:
            return fail('options of %s are %r, configured %r', p.name, p._o, w)
    for x in log:
        if x[0] == 'query' and x[2] != ('theos', '7'):
            return fail('additional installer asked about %r', x)
    for n in names + ['nosuch', '', None]:
        i = ic.lookup_installer(n)
        w = [p for p in plugs if p.name == n]
        if (i is not None) != bool(w) or (w and i is not w[0]):
            return fail('lookup_installer(%r) gave %r', n, i)
    if list(ic.core_installer_names) != core or sorted(ic.additional_installer_names) != sorted(add) or \
            sorted(ic.installer_names) != sorted(core + add) or list(ic.installer_plugin_names) != names:
        return fail('names of installers wrong')


def c_os(inp):
    """setup_os: override with name/version, or detection; options handed to the OS"""
    override, options = inp
    m = need('xylem.installers.impl')
    IC = need('xylem.installers.impl:InstallerContext')
    log = []

    class FakeSupport(object):
        def __init__(self, disabled=[]):
            log.append(('init', list(disabled)))
            self.current_os = FakeOS([], log)

        def detect_os(self):
            log.append(('detect',))

        def override_os(self, t):
            log.append(('override', tuple(t)))
    cfg = Rec(core_installers=[], use_additional_installers=False, installer_options={}, os_override=override, os_options=options,
              disabled_plugins=Rec(installer=[], os=['ubuntu'], spec=[]))
    old, old2 = m.OSSupport, m.load_installer_plugins
    m.OSSupport, m.load_installer_plugins = FakeSupport, lambda d=[]: []
    try:
        g = outcome(IC, cfg)
    finally:
        m.OSSupport, m.load_installer_plugins = old, old2
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    acts = [x for x in log if x[0] in ('detect', 'override')]
    if ('init', ['ubuntu']) not in log:
        return fail('disabled OS plugins: %r', log)
    want = [('detect',)] if override is None else [('override', tuple(override))]
    if acts != want:
        return fail('OS set up by %r, expected %r', acts, want)
    if g[1].get_os().options != options:
        return fail('OS options %r, configured %r', g[1].get_os().options, options)


def c_real(inp):
    """options of the shipped installers: configured values with defaults filled in; unknown ignored; bad ones rejected"""
    mod, cls, opts = inp
    I = need('xylem.installers.plugins.%s:%s' % (mod, cls))
    i, d = I(), I()
    CE = need('xylem.config_utils:ConfigValueError')
    bad = not isinstance(opts, dict) or not (opts.get('as_root') is None or isinstance(opts.get('as_root'), bool))
    if isinstance(opts, dict) and cls == 'FakeInstaller':
        bad = bad or not all(opts.get(k) is None or isinstance(opts.get(k), str) for k in ('fake_name', 'install_dir'))
    before = dict(d.options)
    o0 = dc(opts)

    def setit():
        i.options = opts
    g = outcome(setit)
    if not same(opts, o0):
        return fail('changed the configured options')
    if bad:
        if g[0] == 'ok' or not isinstance(g[1], CE):
            return fail('bad options %r: %r', opts, g)
        return None
    if g[0] == 'exc':
        return fail('options %r raised %s', opts, exc_name(g))
    for k, v in before.items():
        w = v if opts.get(k) is None else opts[k]
        if k == 'install_dir':
            continue
        if i.options[k] != w:
            return fail('option %s is %r, expected %r', k, i.options[k], w)
    if set(i.options) != set(before):
        return fail('option names %r', sorted(i.options))


CASES = dict(setup=c_setup, os=c_os, real=c_real)


def gen(rng, tier):
    for o in (None, ('ubuntu', 'lucid'), ('x', None)):
        for opt in ({}, {'features': ['a']}):
            yield 'os', (o, opt)
    for mod, cls in (('apt', 'AptInstaller'), ('pip', 'PipInstaller'), ('homebrew', 'HomebrewInstaller'), ('macports', 'MacportsInstaller'), ('fake', 'FakeInstaller')):
        for opts in ({}, {'as_root': True}, {'as_root': False}, {'as_root': 'x'}, {'as_root': None}, {'zz': 1}, {'as_root': True, 'zz': 1}, [], None, {'fake_name': 'q'}, {'fake_name': 1}, {'as_root': 0}):
            yield 'real', (mod, cls, opts)
    n = 1500 if tier == 'quick' else 20000
    pool = ['apt', 'pip', 'gem', 'brew', 'port']
    for i in range(n):
        plugins = [(p, rng.random() < .5) for p in rng.sample(pool, rng.randint(0, 5))]
        oscore = rng.sample(pool + ['unk'], rng.randint(0, 3))
        cfgcore = None if rng.random() < .5 else rng.sample(pool + ['unk2'], rng.randint(0, 3))
        opts = [(p, {'o': p}) for p in rng.sample(pool + ['nop'], rng.randint(0, 3))]
        yield 'setup', (plugins, oscore, cfgcore, rng.random() < .7, opts, rng.random() < .3)
