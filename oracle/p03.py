import itertools
from common import *
from rulesgen import *
RULE = ('random rules x every key/os/version incl. absent ones x default installer present/absent; '
        'exhaustive over presence of one installer at the three levels')
M = 'xylem.sources.rules_dict:'


class Ctx(object):
    def __init__(self, os_, ver, default):
        self.t, self.d = (os_, ver), default

    def get_os_tuple(self):
        return self.t

    def get_default_installer_name(self):
        return self.d


def both(rules, key, os_, ver, default):
    od = rules.get(key, {})
    vd = od.get(os_, {})
    for lev in (vd.get(ver, {}), vd.get('any_version', {}), od.get('any_os', {}).get('any_version', {})):
        if 'default_installer' in lev and default in lev:
            return True
    return False


def c_lookup(inp):
    rules, key, os_, ver, default = inp
    if both(rules, key, os_, ver, default):
        return None
    orig = dc(rules)
    want = lookup_ref(rules, key, os_, ver, default)
    RS = need('xylem.specs.plugins.rules:RulesSpec')
    f = need(M + 'lookup_rules')
    for label, call in [('lookup_rules', lambda: f(rules, key, os_, ver, default)),
                        ('RulesSpec.lookup', lambda: RS().lookup(rules, key, Ctx(os_, ver, default)))]:
        got = outcome(call)
        if not same(rules, orig):
            return fail('%s modified the rules', label)
        if want is None:
            if got[0] == 'ok':
                return fail('%s resolved default_installer without a default installer: %r', label, got[1])
            if not isinstance(got[1], ValueError):
                return fail('%s raised %s', label, exc_name(got))
            continue
        if got[0] == 'exc':
            return fail('%s raised %s, expected %r', label, exc_name(got), want)
        if not same(got[1], want):
            return fail('%s gave %r, expected %r', label, got[1], want)
        if got[1]:
            got[1].clear()
        got[1]['zz'] = 1
        if not same(rules, orig):
            return fail('changing the result of %s changes the rules', label)


def c_keys(inp):
    rules, os_, ver = inp
    orig = dc(rules)
    f = need(M + 'has_rule_for_os')
    want = [k for k in rules if has_ref(rules[k], os_, ver)]
    for k in rules:
        g = outcome(f, rules[k], os_, ver)
        if g[0] == 'exc' or bool(g[1]) != (k in want):
            return fail('has_rule_for_os for %s: %r', k, g)
    RS = need('xylem.specs.plugins.rules:RulesSpec')
    g = outcome(lambda: RS().keys(rules, Ctx(os_, ver, 'apt')))
    if g[0] == 'exc':
        return fail('RulesSpec.keys raised %s', exc_name(g))
    if sorted(g[1]) != sorted(want):
        return fail('RulesSpec.keys gave %r, expected %r', g[1], want)
    if not same(rules, orig):
        return fail('listing keys modified the rules')


def c_api(inp):
    """xylem.lookup.lookup through the database agrees with the rules (compact or not)."""
    rules, key, os_, ver, default = inp
    want = lookup_ref(rules, key, os_, ver, default)
    if want is None or both(rules, key, os_, ver, default) or 'default_installer' in (want or {}):
        return None
    lm = need('xylem.lookup')
    lookup, DB = need('xylem.lookup:lookup'), need('xylem.lookup:RulesDatabase')
    spec = need('xylem.specs.plugins.rules:RulesSpec')()
    sc = Rec(sources_dir='/nonexistent', cache_dir='/nonexistent', is_default_dirs=lambda: True, get_spec=lambda n: spec)
    real_init = need('xylem.sources.database:RulesDatabase.init_from_sources')
    RSrc = need('xylem.sources.database:RulesSource')

    class FakeDB(DB):
        def init_from_sources(self):
            s = RSrc(spec, 'http://x', 'o', self.sources_context)
            s.data = rules
            self.sources = [s]

        def load_from_cache(self):
            pass
    lm.RulesDatabase = FakeDB
    try:
        g = outcome(lookup, key, False, {}, sc, Ctx(os_, ver, default))
    finally:
        lm.RulesDatabase = DB
    if g[0] == 'exc':
        return fail('lookup raised %s', exc_name(g))
    if not same(g[1], want):
        return fail('lookup gave %r, expected %r', g[1], want)


CASES = dict(lookup=c_lookup, keys=c_keys, api=c_api)


def gen(rng, tier):
    # presence patterns of (apt, default, pip) at the three levels
    for pat in itertools.product([None, 'apt', 'default_installer', 'pip', 'apt+pip', 'default_installer+pip'], repeat=3):
        levs = []
        for i, p in enumerate(pat):
            levs.append(None if p is None else {n: {'packages': ['%s%d' % (n[0], i)]} for n in p.split('+')})
        if levs[2] and 'default_installer' in levs[2]:
            continue
        od = {}
        vd = {}
        if levs[0] is not None:
            vd['lucid'] = levs[0]
        if levs[1] is not None:
            vd['any_version'] = levs[1]
        if vd:
            od['ubuntu'] = vd
        if levs[2] is not None:
            od['any_os'] = {'any_version': levs[2]}
        for d in ('apt', None, 'pip'):
            yield 'lookup', ({'foo': od}, 'foo', 'ubuntu', 'lucid', d)
        yield 'lookup', ({'foo': od}, 'foo', 'ubuntu', 'precise', 'apt')
        yield 'lookup', ({'foo': od}, 'foo', 'debian', 'lucid', 'apt')
        yield 'keys', ({'foo': od, 'bar': {}}, 'ubuntu', 'lucid')
        yield 'keys', ({'foo': od, 'bar': {'ubuntu': {}}}, 'ubuntu', 'precise')
        yield 'keys', ({'foo': od}, 'debian', 'lucid')
    n = 1500 if tier == 'quick' else 20000
    for i in range(n):
        defs = {o: rng.choice(['apt', 'pip']) for o in OSES}
        rules = rnd_rules(rng, defs)
        for _ in range(2):
            os_ = rng.choice(OSES + ['windows', 'beos'])
            ver = rng.choice(['lucid', 'precise', 'trusty', '10'])
            k = rng.choice(KEYS)
            yield 'lookup', (rules, k, os_, ver, defs.get(os_, rng.choice([None, 'apt'])))
            yield 'keys', (rules, os_, ver)
        if i % 5 == 0:
            yield 'api', (rules, k, os_, ver, defs.get(os_, 'apt'))
