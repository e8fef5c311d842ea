import itertools
from common import *
from inst import *
RULE = ('random key lists (duplicates, unknown keys), databases, core/additional installer orders, install_from maps, failing '
        'installers and lookups; small cases exhaustive over which of four installers has a rule')


class FakeInst(object):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def resolve(self, rule):
        self.log.append((self.name, rule))
        if rule.get('fail'):
            raise need('xylem.installers:InstallerError')('bad rule')
        if rule.get('invalid'):
            raise need('xylem.installers:InvalidRuleError')('bad rule')
        return [(self.name, p) for p in rule.get('packages', [])]


class FakeDB(object):
    def __init__(self, d):
        self.d = d

    def lookup(self, key, ic):
        v = self.d.get(key, {})
        if v == 'LOOKUPERROR':
            raise LookupError('x')
        if v == 'KEYERROR':
            raise KeyError('x')
        return v

    def keys(self, ic):
        return [k for k in self.d if self.d[k] != {}]


def c_resolve(inp):
    db, keys, allk, core, add, loaded, ifrom = inp
    log = []
    plugs = [FakeInst(n, log) for n in loaded]
    ic = mkctx(plugs, [c for c in core if c in loaded], [a for a in add if a in loaded])
    cfg = config(install_from=ifrom)
    keys0, db0 = list(keys), dc(db)
    f = need('xylem.resolve:resolve')
    g = outcome(f, keys, allk, cfg, FakeDB(db), None, ic)
    if keys != keys0 or not same(db, db0):
        return fail('resolve changed its arguments')
    if g[0] == 'exc':
        return fail('resolve raised %s', exc_name(g))
    try:
        res, errs = g[1]
        res = [(k, n, r) for k, (n, r) in res]
        errs = [(k, e) for k, e in errs]
    except Exception:
        return fail('malformed result %r', g[1])
    want = []
    for k in keys + (sorted(FakeDB(db).keys(ic)) if allk else []):
        if k not in want:
            want.append(k)
    rk, ek = [x[0] for x in res], [x[0] for x in errs]
    if sorted(rk + ek) != sorted(want):
        return fail('answered keys %r + %r, requested %r', rk, ek, want)
    if rk != [k for k in want if k in rk] or ek != [k for k in want if k in ek]:
        return fail('order of results %r errors %r for %r', rk, ek, want)
    RE = need('xylem.resolve:ResolutionError')
    for k, e in errs:
        if not isinstance(e, RE):
            return fail('error %r is no resolution error', e)
    frm = {}
    for i, ks in ifrom.items():
        for k in ks or []:
            frm.setdefault(k, []).append(i)
    calls = {}
    for n, r in log:
        calls.setdefault(id(r), []).append(n)
    for k in want:
        rules = db.get(k, {})
        if rules in ('LOOKUPERROR', 'KEYERROR'):
            cands = []
        elif k in frm:
            cands = [i for i in frm[k] if i in loaded and i in rules]
            if len(frm[k]) > 1:
                cands = [frm[k][0]] if frm[k][0] in loaded and frm[k][0] in rules else []
        else:
            c = [i for i in core if i in loaded and i in rules]
            cands = c[:1] or [i for i in add if i in loaded and i in rules]
        got = [x for x in res if x[0] == k]
        good = [i for i in cands if not (rules[i].get('fail') or rules[i].get('invalid'))]
        if not cands:
            if got:
                return fail('%s resolved to %r, there is no applicable rule', k, got)
        elif got:
            if got[0][1] not in cands:
                return fail('%s resolved by %s, expected %r', k, got[0][1], cands)
            n = got[0][1]
            if got[0][2] != [(n, p) for p in rules[n].get('packages', [])]:
                return fail('%s resolved to %r for rule %r', k, got[0][2], rules[n])
        elif good == cands:
            return fail('%s is an error, expected installer %r', k, cands)


def c_dups(inp):
    f = need('xylem.util:remove_duplicates')
    i0 = list(inp)
    want = []
    for x in inp:
        if x not in want:
            want.append(x)
    for a in (list(inp), iter(list(inp)), tuple(inp)):
        g = outcome(f, a)
        if g[0] == 'exc' or list(g[1]) != want:
            return fail('gave %r, expected %r', g[1], want)
    if inp != i0:
        return fail('changed its input')


CASES = dict(resolve=c_resolve, dups=c_dups)


def gen(rng, tier):
    R = lambda t: {'packages': [t]}
    for pat in itertools.product([0, 1], repeat=4):
        rules = {n: R(n) for n, b in zip('abcd', pat) if b}
        for core, add in ((['a', 'b'], ['c', 'd']), (['b', 'a'], ['d', 'c']), ([], ['a', 'b']), (['a', 'b', 'c', 'd'], []), (['c'], ['a'])):
            for ifrom in ({}, {'a': ['k']}, {'d': ['k']}, {'b': ['x'], 'c': ['k', 'k2']}, {'zz': ['k']}, {'a': ['k'], 'b': ['k']}, {'a': None}, {'a': []}):
                yield 'resolve', ({'k': rules, 'k2': {'a': R('q')}}, ['k', 'k2', 'k'], False, core, add, list('abcd'), ifrom)
    n = 2500 if tier == 'quick' else 30000
    names = ['a', 'b', 'c', 'd', 'e']
    for i in range(n):
        loaded = rng.sample(names, rng.randint(0, 5))
        core = rng.sample(names, rng.randint(0, 3))
        add = [x for x in rng.sample(names, rng.randint(0, 4)) if x not in core]
        db = {}
        for k in rng.sample(['k%d' % j for j in range(5)], rng.randint(0, 5)):
            if rng.random() < .1:
                db[k] = rng.choice(['LOOKUPERROR', 'KEYERROR'])
            else:
                db[k] = {}
                for inst in rng.sample(names + ['unknown'], rng.randint(0, 4)):
                    r = R('%s-%s' % (inst, k))
                    if rng.random() < .2:
                        r[rng.choice(['fail', 'invalid'])] = 1
                    db[k][inst] = r
        ks = [rng.choice(['k%d' % j for j in range(6)]) for _ in range(rng.randint(0, 6))]
        ifrom = {inst: rng.sample(['k%d' % j for j in range(6)], rng.randint(0, 3)) for inst in rng.sample(names + ['zz'], rng.choice([0, 0, 1, 2, 3]))}
        yield 'resolve', (db, ks, rng.random() < .4, core, add, loaded, ifrom)
        yield 'dups', [rng.choice([1, 2, 3, 'a', 'b', None, (1,)]) for _ in range(rng.randint(0, 7))]
