import itertools
from common import *
from rulesgen import *
RULE = ('lists of 0-4 random rules dicts over 3 keys, 4 OSs, 3 versions, 5 installers, compared with ordered lookup for '
        'every key/OS/version/installer; exhaustive over pairs of one-rule sources')
M = 'xylem.sources.rules_dict:'


def valid(lst, defs):
    for r in lst:
        for od in r.values():
            for o, vd in od.items():
                for d in vd.values():
                    if o == 'any_os':
                        if 'default_installer' in d:
                            return False
                    elif o in defs and 'default_installer' in d and defs[o] in d:
                        return False
    return True


def ref(lst, k, o, v, default):
    out = {}
    for r in lst:
        x = lookup_ref(r, k, o, v, default)
        for i, rule in x.items():
            out.setdefault(i, rule)
    return out


def c_merge(inp):
    lst, defs = inp
    if not valid(lst, defs):
        return None
    orig = dc(lst)
    f = need(M + 'merge_rules')
    g = outcome(f, lst, defs)
    if not same(lst, orig):
        return fail('merge_rules modified its sources')
    if g[0] == 'exc':
        return fail('merge_rules raised %s', exc_name(g))
    m = g[1]
    keys = sorted({k for r in lst for k in r} | {'nokey'})
    for k, od in m.items():
        if k not in keys:
            return fail('new key %r', k)
        for o, vd in od.items():
            if o != 'any_os' and o not in defs:
                return fail('OS %r without default installer remains for %r', o, k)
            for v, d in vd.items():
                if 'default_installer' in d:
                    return fail('default_installer remains in %r/%r/%r', k, o, v)
    look = need(M + 'lookup_rules')
    oses = sorted(set(defs) | {'nodefault'})
    vers = sorted({v for r in lst for od in r.values() for vd in od.values() for v in vd} - {'any_version'}) + ['nover']
    for k in keys:
        for o in oses:
            for v in vers:
                if o == 'nodefault':
                    want = ref([{kk: {oo: x for oo, x in od.items() if oo == 'any_os'} for kk, od in r.items()} for r in lst], k, o, v, 'apt')
                else:
                    want = ref(lst, k, o, v, defs[o])
                got = lookup_ref(m, k, o, v, 'apt')
                if not same(got, want):
                    return fail('%s/%s/%s: merged rules give %r, sources in order give %r', k, o, v, got, want)
    src = containers(orig and lst)
    for k, od in m.items():
        objs = [od] + list(od.values()) + [d for vd in od.values() for d in vd.values()]
        ids = [id(x) for x in objs]
        for x in objs:
            if id(x) in src:
                return fail('merged structure shares a dictionary with a source: %r', x)
        if len(set(ids)) != len(ids):
            return fail('merged structure shares a dictionary between entries')
    for od in list(m.values()):
        for vd in list(od.values()):
            for d in list(vd.values()):
                d.clear()
                d['x'] = {}
            vd.clear()
        od.clear()
    m.clear()
    if not same(lst, orig):
        return fail('changing the merged rules changes a source')


def c_mergeinst(inp):
    new, comb, default = inp
    if 'default_installer' in new and default in new:
        return None
    f = need(M + 'merge_installer_dict')
    n0, c0 = dc(new), dc(comb)
    g = outcome(f, new, comb, default)
    if not same(new, n0):
        return fail('modified the merged-in map')
    if 'default_installer' in new and not default:
        if g[0] == 'ok' or not isinstance(g[1], ValueError):
            return fail('default installer without name not refused: %r', g)
        return None
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    want = dict(c0)
    for k, v in n0.items():
        want[default if k == 'default_installer' else k] = v
    if not same(comb, want):
        return fail('gave %r, expected %r', comb, want)


def c_copy(inp):
    """copies of os / version / installer maps: filtered, renamed, not sharing dictionaries with the original"""
    od, defs = inp
    if not valid([{'k': od}], defs):
        return None
    f = need(M + 'copy_os_dict')
    o0 = dc(od)
    g = outcome(f, od, defs)
    if g[0] == 'exc':
        return fail('copy_os_dict raised %s', exc_name(g))
    want = {o: {v: {(defs.get(o) if i == 'default_installer' and o != 'any_os' else i): r for i, r in d.items()} for v, d in vd.items()}
            for o, vd in o0.items() if o == 'any_os' or o in defs}
    if not same(g[1], want):
        return fail('copy_os_dict gave %r, expected %r', g[1], want)
    if not same(od, o0):
        return fail('copy_os_dict modified the original')
    src = containers(od)
    for x in [g[1]] + list(g[1].values()) + [d for vd in g[1].values() for d in vd.values()]:
        if id(x) in src:
            return fail('copy_os_dict shares a dictionary with the original')


CASES = dict(merge=c_merge, minst=c_mergeinst, copy=c_copy)


def one(o, v, i, tag):
    return {'foo': {o: {v: {i: {'packages': [tag]}}}}}


def gen(rng, tier):
    pos = [(o, v, i) for o in ('ubuntu', 'debian') for v in ('lucid', 'any_version') for i in ('apt', 'default_installer', 'pip')] + \
          [('any_os', 'any_version', i) for i in ('apt', 'pip')] + [('beos', 'any_version', 'pip')]
    defs = {'ubuntu': 'apt', 'debian': 'pip'}
    for a in pos:
        for b in pos:
            yield 'merge', ([one(*a, tag='a'), one(*b, tag='b')], defs)
            # two rules within one source
            s = one(*a, tag='a')
            s['foo'].setdefault(b[0], {}).setdefault(b[1], {}).setdefault(b[2], {'packages': ['b']})
            yield 'merge', ([s], defs)
            for c in (pos if tier == 'thorough' else pos[::3]):
                yield 'merge', ([s, one(*c, tag='c')], defs)
                yield 'merge', ([one(*c, tag='c'), s], defs)
                yield 'merge', ([one(*a, tag='a'), one(*b, tag='b'), one(*c, tag='c')], defs)
    n = 800 if tier == 'quick' else 15000
    for i in range(n):
        defs = {o: rng.choice(['apt', 'pip', 'homebrew']) for o in rng.sample(OSES, rng.randint(0, 3))}
        lst = [rnd_rules(rng, defs, KEYS[:rng.choice([1, 2, 3])]) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        yield 'merge', (lst, defs)
        d = rng.choice([None, 'apt', 'pip'])
        yield 'minst', (rnd_installer_dict(rng, d), rnd_installer_dict(rng, d), d)
        yield 'copy', (rnd_os_dict(rng, defs), defs)
