import itertools
from common import *
RULE = 'random derivation chains and forests of fake OS plugins in every plugin order; overrides with known/unknown names and versions'


def mkos(spec, log=None):
    OS = need('xylem.os_support.impl:OS')
    UE = need('xylem.os_support.impl:UnsupportedOSError')

    class F(OS):
        def __init__(self):
            self._o = {}

        name = property(lambda s: spec['names'][0])
        all_names = property(lambda s: list(spec['names']))
        default_installer = property(lambda s: 'def-' + spec['names'][0])
        known_versions = property(lambda s: list(spec['versions']))
        version_less_fn = property(lambda s: ('less', spec['names'][0]))

        @property
        def options(self):
            return self._o

        @options.setter
        def options(self, v):
            self._o = v

        def get_version(self):
            if not spec['match']:
                raise UE('not this os')
            return spec.get('version', 'vdet')

        def get_tuple(self):
            return (self.name, self.get_version())

        def get_all_tuples(self, version):
            return [(n, version) for n in spec['names']]

        def get_core_installers(self, version, options):
            return ['core', version, options]

        def is_os(self):
            return spec['match']
    return F()


def mksup(oses):
    S = need('xylem.os_support.impl:OSSupport')
    s = S.__new__(S)
    m = need('xylem.os_support.impl')
    old = m.load_os_plugins
    m.load_os_plugins = lambda d=[]: list(oses)
    try:
        s.__init__()
    finally:
        m.load_os_plugins = old
    return s


def c_detect(specs):
    UE = need('xylem.os_support.impl:UnsupportedOSError')
    oses = [mkos(s) for s in specs]
    matching = [o for o, s in zip(oses, specs) if s['match']]
    sup = mksup(oses)
    for how in ('detect_os', 'current_os'):
        g = outcome(lambda: sup.detect_os() or sup.current_os) if how == 'detect_os' else outcome(lambda: mksup(oses).current_os)
        if not matching:
            if g[0] == 'ok':
                return fail('no OS matches, but %r was detected', g[1].name)
            if not isinstance(g[1], UE):
                return fail('raised %s', exc_name(g))
            continue
        if g[0] == 'exc':
            return fail('raised %s', exc_name(g))
        r = g[1]
        if not any(r is o for o in matching):
            return fail('detected %r, which does not match', r.name)
        line = all(a.name in b.all_names or b.name in a.all_names for a in matching for b in matching)
        if line:
            for o in matching:
                if o is not r and o.name != r.name and r.name in o.all_names:
                    return fail('detected %r although its derivative %r matches', r.name, o.name)


def c_override(inp):
    specs, first, t = inp
    m = 'xylem.os_support.impl:'
    UE, UV = need(m + 'UnsupportedOSError'), need(m + 'UnsupportedOSVersionError')
    oses = [mkos(s) for s in specs]
    sup = mksup(oses)
    cur = None
    if first is not None:
        sup.override_os((specs[first]['names'][0], specs[first]['versions'][0]))
        cur = sup.current_os
    g = outcome(sup.override_os, t)
    name, ver = t
    cand = [(o, s) for o, s in zip(oses, specs) if s['names'][0] == name]
    bad = None
    if not cand:
        bad = UE
    elif ver is None:
        if not cand[0][1]['match']:
            bad = Exception
    elif ver not in cand[0][1]['versions']:
        bad = UV
    if bad:
        if g[0] == 'ok':
            return fail('invalid override %r accepted', t)
        if not isinstance(g[1], bad) or not isinstance(g[1], need('xylem.exception:XylemError')):
            return fail('raised %s', exc_name(g))
        if first is not None and sup.current_os is not cur:
            return fail('rejected override changed the current OS')
        if first is not None and cur.get_tuple() != (specs[first]['names'][0], specs[first]['versions'][0]):
            return fail('rejected override changed the current OS tuple')
        return None
    if g[0] == 'exc':
        return fail('valid override %r raised %s', t, exc_name(g))
    o, s = cand[0]
    c = sup.current_os
    v = ver if ver is not None else s.get('version', 'vdet')
    if c.get_tuple() != (name, v) or c.get_version() != v or c.name != name:
        return fail('override %r gives %r', t, c.get_tuple())
    if not c.is_os():
        return fail('override is not the OS')
    checks = [('all_names', list(c.all_names), list(o.all_names)), ('default_installer', c.default_installer, o.default_installer),
              ('known_versions', list(c.known_versions), list(o.known_versions)), ('version_less_fn', c.version_less_fn, o.version_less_fn),
              ('all_tuples', c.get_all_tuples('q'), o.get_all_tuples('q')), ('all_tuples v', c.get_all_tuples(v), o.get_all_tuples(v)),
              ('core', c.get_core_installers('q', {'a': 1}), o.get_core_installers('q', {'a': 1}))]
    c.options = {'features': ['z']}
    checks += [('options', c.options, {'features': ['z']}), ('options of the OS', o.options, {'features': ['z']})]
    for n, a, b in checks:
        if a != b:
            return fail('override answers %s with %r instead of %r', n, a, b)


def c_lookup(specs):
    oses = [mkos(s) for s in specs]
    sup = mksup(oses)
    names = [s['names'][0] for s in specs]
    for n in names + ['nosuch', None, '']:
        r = sup.lookup_os(n)
        if (r is not None) != (n in names) or (r is not None and r is not oses[names.index(n)]):
            return fail('lookup_os(%r) gives %r', n, r)
    if list(sup.os_plugin_names) != names:
        return fail('os_plugin_names %r', sup.os_plugin_names)
    if sup.get_default_installer_names() != {n: 'def-' + n for n in names}:
        return fail('default installers %r', sup.get_default_installer_names())


def c_notos(x):
    O = need('xylem.os_support.impl:OSOverride')
    g = outcome(O, x, 'v')
    if g[0] == 'ok' or not isinstance(g[1], need('xylem.os_support.impl:UnsupportedOSError')):
        return fail('OSOverride of %r: %r', x, g)


CASES = dict(detect=c_detect, override=c_override, lookup=c_lookup, notos=c_notos)


def gen(rng, tier):
    chain = ['a', 'b', 'c', 'd']
    for k in range(0, 5):
        for perm in itertools.permutations(range(k)):
            for mask in itertools.product([True, False], repeat=k):
                specs = []
                for i in perm:
                    specs.append({'names': chain[:i + 1][::-1], 'match': mask[i], 'versions': ['v1', 'v2']})
                yield 'detect', specs
                if k <= 3:
                    yield 'lookup', specs
    for x in (None, 'ubuntu', 1, {}):
        yield 'notos', x
    n = 600 if tier == 'quick' else 8000
    for i in range(n):
        specs, names = [], []
        for nm in rng.sample('abcdefg', rng.randint(0, 5)):
            par = rng.choice([[]] + [s['names'] for s in specs])
            specs.append({'names': [nm] + par, 'match': rng.random() < .6, 'versions': rng.sample(['v1', 'v2', 'v3', 'vdet'], rng.randint(1, 3)), 'version': rng.choice(['v1', 'vdet', 'odd'])})
        rng.shuffle(specs)
        yield 'detect', specs
        yield 'lookup', specs
        first = rng.randrange(len(specs)) if specs and rng.random() < .6 else None
        yield 'override', (specs, first, (rng.choice('abcdefgz'), rng.choice([None, 'v1', 'v2', 'v3', 'vdet', 'odd', ''])))
