from common import *
from rulesgen import *
RULE = 'expanded random rules with random default installers; compaction compared by lookups of the re-expanded result'
M = 'xylem.specs.plugins.rules:'


def ambiguous(rules, defs):
    return any('default_installer' in d and defs.get(o) and defs[o] in d
               for od in rules.values() for o, vd in od.items() for d in vd.values() if o != 'any_os')


def c_rules(inp):
    rules, defs = inp
    orig = dc(rules)
    f, ex = need(M + 'compact_rules'), need(M + 'expand_rules')
    g = outcome(f, rules, defs)
    if ambiguous(orig, defs):
        if g[0] == 'ok':
            return fail('map naming the default installer twice was accepted: %r', g[1])
        if not isinstance(g[1], ValueError):
            return fail('raised %s', exc_name(g))
        return None
    if g[0] == 'exc':
        return fail('compact_rules raised %s', exc_name(g))
    try:
        e = expand_ref(dc(g[1]))
    except ValueError:
        return fail('compacted form is not a rules document: %r', g[1])
    g2 = outcome(ex, dc(g[1]))
    if g2[0] == 'exc':
        return fail('expanding the compacted form raised %s', exc_name(g2))
    vers = sorted({v for od in orig.values() for vd in od.values() for v in vd} - {'any_version'}) + ['nover']
    oses = sorted({o for od in orig.values() for o in od} | set(defs)) + ['noos']
    for k in list(orig) + ['nokey']:
        for o in oses:
            if o == 'any_os':
                continue
            for v in vers:
                d = defs.get(o) or 'dflt_x'
                a, b, c = lookup_ref(orig, k, o, v, d), lookup_ref(e, k, o, v, d), lookup_ref(g2[1], k, o, v, d)
                if not same(a, b) or not same(a, c):
                    return fail('%s/%s/%s: %r before, %r after compaction (%r)', k, o, v, a, b, g[1])


def c_inst(inp):
    d, default = inp
    d0 = dc(d)
    f = need(M + 'compact_installer_dict')
    g = outcome(f, d, default)
    if not same(d, d0):
        return fail('compact_installer_dict modified its input')
    if default and 'default_installer' in d0 and default in d0:
        if g[0] == 'ok' or not isinstance(g[1], ValueError):
            return fail('both default names accepted: %r', g)
        return None
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    nm = lambda i: default if (default and i == 'default_installer') else i
    want = {nm(k): v for k, v in d0.items()}
    r = g[1]
    if not isinstance(r, dict):
        dn = default or 'default_installer'
        if set(want) != {dn}:
            return fail('anonymous form %r of %r', r, d0)
    e = {nm(k): v for k, v in expand_inst(dc(r)).items()}
    if not same(e, want):
        return fail('compacted to %r which means %r, expected %r', r, e, want)


def c_version(inp):
    vd, default = inp
    f = need(M + 'compact_version_dict')
    v0 = dc(vd)
    amb = default and any('default_installer' in d and default in d for d in v0.values())
    g = outcome(f, vd, default)
    if amb:
        if g[0] == 'ok' or not isinstance(g[1], ValueError):
            return fail('both default names accepted: %r', g)
        return None
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    e = expand_ver('ubuntu', dc(g[1]))
    for v in sorted(set(v0) | {'nover'}):
        if v == 'any_version':
            continue
        d = default or 'dflt_x'
        a = lookup_ref({'k': {'ubuntu': v0}}, 'k', 'ubuntu', v, d)
        b = lookup_ref({'k': {'ubuntu': e}}, 'k', 'ubuntu', v, d)
        if not same(a, b):
            return fail('version %s: %r before, %r after (%r)', v, a, b, g[1])


def c_api(inp):
    """lookup(compact=True) is the compacted lookup result, lookup(compact=False) the plain one"""
    d, default = inp
    lm = need('xylem.lookup')
    DB = need('xylem.lookup:RulesDatabase')

    class FakeDB(object):
        def __init__(self, sc):
            pass

        def load_from_cache(self):
            pass

        def lookup(self, key, ic):
            return dc(d)
    lm.RulesDatabase = FakeDB
    try:
        ic = Rec(get_default_installer_name=lambda: default)
        g = outcome(need('xylem.lookup:lookup'), 'k', True, {'x': 1}, Rec(), ic)
        p = outcome(need('xylem.lookup:lookup'), 'k', False, {'x': 1}, Rec(), ic)
    finally:
        lm.RulesDatabase = DB
    if p[0] == 'exc' or not same(p[1], d):
        return fail('lookup(compact=False): %r, expected %r', p[1], d)
    if g[0] == 'exc':
        return fail('lookup(compact=True): %r', g[1])
    nm = lambda i: default if (default and i == 'default_installer') else i
    e = {nm(k): v for k, v in expand_inst(dc(g[1])).items()}
    if not same(e, d):
        return fail('lookup(compact=True) gave %r for %r', g[1], d)


CASES = dict(rules=c_rules, inst=c_inst, version=c_version, api=c_api)
RULES_ = [{'packages': ['a']}, {'packages': ['b']}, {'packages': []}, {'packages': ['a'], 'depends': ['x']}, {}, {'opts': 1}, {'packages': ['a', 'b']}]


def gen(rng, tier):
    for r in RULES_:
        for n in ('apt', 'default_installer', 'pip'):
            for df in ('apt', None, 'pip', ''):
                yield 'inst', ({n: r}, df)
                for r2 in RULES_[:4]:
                    yield 'inst', ({n: r, 'gem': r2}, df)
                    yield 'inst', ({'default_installer': r, 'apt': r2}, df)
                    for v2 in ('lucid', 'precise'):
                        for n2 in ('apt', 'default_installer', 'pip'):
                            yield 'version', ({v2: {n2: r2}, 'any_version': {n: r}}, df)
                            yield 'version', ({'any_version': {n: r}, v2: {n2: r2}}, df)
                            yield 'version', ({'any_version': {n: r, 'gem': r}, v2: {n2: r2}}, df)
                            yield 'rules', ({'foo': {'ubuntu': {v2: {n2: r2}, 'any_version': {n: r}}}}, {'ubuntu': df})
    n = 1200 if tier == 'quick' else 20000
    for i in range(n):
        defs = {o: rng.choice(['apt', 'pip']) for o in rng.sample(OSES, rng.randint(0, 3))}
        rules = rnd_rules(rng, defs if rng.random() < .9 else {})
        if rng.random() < .4:      # repeat installer maps between versions
            for od in rules.values():
                for vd in od.values():
                    if 'any_version' in vd and len(vd) > 1 and rng.random() < .7:
                        v = rng.choice([x for x in vd if x != 'any_version'])
                        vd[v] = dc(vd['any_version'])
        yield 'rules', (rules, defs)
        d = rng.choice([None, 'apt', 'pip'])
        yield 'version', (rnd_version_dict(rng, d), d)
        yield 'api', (rnd_installer_dict(rng, None, True), d)
