import itertools
from common import *
from rulesgen import *
RULE = ('databases of 0-4 fake or rules-spec sources; per-source answers valid, invalid or with default_installer; '
        'exhaustive over presence of two installers in three sources')


class Ctx(object):
    def __init__(self, os_, ver, default):
        self.t, self.d = (os_, ver), default

    def get_os_tuple(self):
        return self.t

    def get_default_installer_name(self):
        return self.d


class FakeSpec(object):
    """Answers lookups from a table; data is (answers, keys)."""
    name = 'fake'
    version = 1

    def unique_id(self, a):
        return a

    def verify_arguments(self, a):
        pass

    def verify_data(self, d, a):
        pass

    def lookup(self, data, key, ic):
        return data[0].get(key, {}) if data[0] is not None else None

    def keys(self, data, ic):
        return list(data[1])


def mkdb(spec, datas):
    DB = need('xylem.sources.database:RulesDatabase')
    Src = need('xylem.sources.database:RulesSource')

    class D(DB):
        def init_from_sources(self):
            self.sources = []
    sc = Rec(sources_dir='/nonexistent', cache_dir='/nonexistent', is_default_dirs=lambda: True)
    db = D(sc)
    for i, d in enumerate(datas):
        s = Src(spec, 'http://u%d' % i, 'o', sc)
        s.data = d
        db.sources.append(s)
    return db


def c_fake(inp):
    answers, key = inp
    datas = [({key: a}, []) for a in answers]
    o = dc(datas)
    db = mkdb(FakeSpec(), datas)
    bad = [a for a in answers if not inst_ok(a, False)]
    srcs = list(db.sources)
    g = outcome(db.lookup, key, Ctx('ubuntu', 'lucid', 'apt'))
    if not same(datas, o) or db.sources != srcs:
        return fail('lookup changed the loaded data')
    if bad:
        if g[0] == 'ok':
            return fail('answer %r accepted: %r', bad[0], g[1])
        if not isinstance(g[1], ValueError):
            return fail('raised %s', exc_name(g))
        return None
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    want = {}
    for a in answers:
        for k, v in a.items():
            want.setdefault(k, v)
    if not same(g[1], want):
        return fail('lookup gave %r, sources in order give %r', g[1], want)
    g[1].clear()
    g[1]['new'] = 1
    if not same(datas, o):
        return fail('changing the result changes the loaded data')
    g = outcome(db.lookup, key, Ctx('ubuntu', 'lucid', 'apt'))
    if g[0] == 'exc' or not same(g[1], want):
        return fail('second lookup gave %r', g[1])


def c_rules(inp):
    lst, os_, ver, default = inp
    for r in lst:
        for od in r.values():
            for o, vd in od.items():
                for d in vd.values():
                    if 'default_installer' in d and default in d:
                        return None
    orig = dc(lst)
    db = mkdb(need('xylem.specs.plugins.rules:RulesSpec')(), lst)
    ctx = Ctx(os_, ver, default)
    for k in sorted({k for r in lst for k in r} | {'nokey'}):
        refs = [lookup_ref(r, k, os_, ver, default) for r in lst]
        g = outcome(db.lookup, k, ctx)
        if any(x is None for x in refs):
            if g[0] == 'ok' or not isinstance(g[1], ValueError):
                return fail('unnamed default installer: %r', g[1])
            continue
        want = {}
        for x in refs:
            for i, r in x.items():
                want.setdefault(i, r)
        if g[0] == 'exc':
            return fail('%s: raised %s', k, exc_name(g))
        if not same(g[1], want):
            return fail('%s: lookup gave %r, sources in order give %r', k, g[1], want)
    g = outcome(db.keys, ctx)
    want = sorted({k for r in lst for k in r if has_ref(r[k], os_, ver)})
    if g[0] == 'exc' or sorted(g[1]) != want:
        return fail('keys gave %r, expected %r', g[1], want)
    if not same(lst, orig):
        return fail('changed the loaded data')


def c_keys(inp):
    datas = [(None, ks) for ks in inp]
    o = dc(datas)
    db = mkdb(FakeSpec(), datas)
    g = outcome(db.keys, Ctx('ubuntu', 'lucid', 'apt'))
    want = sorted({k for ks in inp for k in ks})
    if g[0] == 'exc' or sorted(g[1]) != want:
        return fail('keys gave %r, expected %r', g[1], want)
    if not same(datas, o):
        return fail('keys changed the loaded data')


CASES = dict(fake=c_fake, rules=c_rules, keys=c_keys)


def gen(rng, tier):
    pats = [{}, {'apt': 0}, {'pip': 0}, {'apt': 0, 'pip': 0}]
    for n in range(0, 4):
        for ps in itertools.product(pats, repeat=n):
            yield 'fake', ([{k: {'packages': ['%s%d' % (k, i)]} for k in p} for i, p in enumerate(ps)], 'foo')
    bads = [None, 1, [], 'x', {'default_installer': {'packages': []}}, {'apt': None}, {'apt': []}, {'a b': {}}, {'any_os': {}}, {1: {}},
            {'apt': {'packages': 'x'}}, {'apt': {'depends': 'x'}}, {'apt': {'depends': ['a b']}}, {'apt': {1: 2}}]
    good = {'apt': {'packages': ['g']}}
    for b in bads:
        for lst in ([b], [b, good], [good, b], [{}, b], [b, {}], [good, b, good]):
            yield 'fake', (lst, 'foo')
    n = 700 if tier == 'quick' else 10000
    for i in range(n):
        defs = {o: 'apt' for o in OSES + ['windows']}
        lst = [rnd_rules(rng, defs, KEYS) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        yield 'rules', (lst, rng.choice(OSES), rng.choice(['lucid', 'precise', 'zz']), rng.choice(['apt', 'apt', 'apt', None]))
        yield 'keys', [[rng.choice(KEYS + ['k%d' % j for j in range(4)]) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
        yield 'fake', ([rnd_installer_dict(rng, None, True) for _ in range(rng.randint(0, 4))], rng.choice(KEYS))
