import os, pickle, shutil, tempfile, datetime
from common import *
RULE = ('histories of load/save/load-from-cache/update on 1-3 fake sources, each loading well, raising or giving refused data; '
        'caches corrupted in every field; dry and real updates in scratch directories')


class FakeSpec(object):
    version = 1

    def __init__(self, name='fake', table=None):
        self.name = name
        self.table = table or {}
        self.loads = []

    def unique_id(self, a):
        return repr(a)

    def verify_arguments(self, a):
        if a == 'badargs':
            raise ValueError('args')

    def load_data(self, a):
        self.loads.append(a)
        v = self.table[repr(a)]
        if v == 'RAISE':
            raise RuntimeError('cannot load')
        return dc(v)

    def verify_data(self, d, a):
        if isinstance(d, dict) and d.get('bad'):
            raise ValueError('refused data')
        if d == 'refused':
            raise ValueError('refused data')

    def is_data_outdated(self, d, a, t):
        return bool(isinstance(d, dict) and d.get('old'))


def ctx(d):
    return Rec(sources_dir=os.path.join(d, 'nosuch'), cache_dir=d, is_default_dirs=lambda: True)


def mkdb(spec, args, d):
    DB = need('xylem.sources.database:RulesDatabase')
    Src = need('xylem.sources.database:RulesSource')

    class D(DB):
        def init_from_sources(self):
            self.sources = []
    sc = ctx(d)
    db = D(sc)
    for a in args:
        db.sources.append(Src(spec, a, 'origin-%r' % (a,), sc))
    return db


def state(s):
    return (s.arguments, s.origin, dc(s.data), s.time_data_loaded)


def scratch():
    return tempfile.mkdtemp(dir=os.environ.get('VERIF_WORK'))


def snapshot(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


def c_round(inp):
    """save, then load into a fresh source with the same arguments"""
    args, data = inp
    d = scratch()
    sp = FakeSpec(table={repr(args): data})
    Src = need('xylem.sources.database:RulesSource')
    a = Src(sp, args, 'orig.yaml', ctx(d))
    t0 = datetime.datetime.now()
    g = outcome(a.load_from_source)
    if g[0] == 'exc':
        return fail('load_from_source raised %s', exc_name(g))
    if not same(a.data, data):
        return fail('loaded %r', a.data)
    t1 = datetime.datetime.now()
    if not (isinstance(a.time_data_loaded, datetime.datetime) and t0 <= a.time_data_loaded <= t1):
        return fail('load time %r', a.time_data_loaded)
    g = outcome(a.save_to_cache)
    if g[0] == 'exc':
        return fail('save_to_cache raised %s', exc_name(g))
    if not a.is_cache_available():
        return fail('cache not available after saving')
    b = Src(sp, args, 'other', ctx(d))
    g = outcome(b.load_from_cache)
    if g[0] == 'exc':
        return fail('load_from_cache raised %s', exc_name(g))
    if not (same(b.arguments, args) and b.origin == 'orig.yaml' and same(b.data, data) and b.time_data_loaded == a.time_data_loaded):
        return fail('restored %r instead of %r', state(b), state(a))
    if len(sp.loads) != 1:
        return fail('source loaded %d times', len(sp.loads))
    g = outcome(b.is_cache_outdated)
    if g != ('ok', bool(isinstance(data, dict) and data.get('old'))):
        return fail('is_cache_outdated: %r', g)
    g = outcome(b.clear_cache)
    if g[0] == 'exc' or b.is_cache_available() or snapshot(d):
        return fail('clear_cache left the cache: %r', g)
    g = outcome(b.is_cache_outdated)
    if g != ('ok', True):
        return fail('is_cache_outdated without cache: %r', g)


def c_badcache(inp):
    """cache file contents (python literal or raw bytes) -> source state unchanged"""
    args, preloaded, contents = inp
    d = scratch()
    sp = FakeSpec(table={repr(args): {'v': 1}})
    Src = need('xylem.sources.database:RulesSource')
    s = Src(sp, args, 'o', ctx(d))
    if preloaded:
        s.load_from_source()
    before = state(s)
    with open(s.cache_file_path(), 'wb') as f:
        f.write(contents if isinstance(contents, bytes) else pickle.dumps(contents, 2))
    g = outcome(s.load_from_cache)
    if g[0] == 'ok':
        return fail('cache %r was accepted, state %r', contents, state(s))
    if not same(state(s), before):
        return fail('state changed from %r to %r', before, state(s))
    # database level: error is not fatal unless asked for, other sources load
    db = mkdb(sp, [args], d)
    db.raise_on_error = False
    b = state(db.sources[0])
    g = outcome(db.load_from_cache)
    if g[0] == 'exc' or not same(state(db.sources[0]), b):
        return fail('database load with bad cache: %r', g)


def c_badsource(inp):
    args, result, cached = inp
    d = scratch()
    sp = FakeSpec(table={repr(args): {'v': 1}})
    Src = need('xylem.sources.database:RulesSource')
    s = Src(sp, args, 'o', ctx(d))
    if cached:
        s.load_from_source()
        s.save_to_cache()
    sp.table[repr(args)] = result
    before, snap = state(s), snapshot(d)
    g = outcome(s.load_from_source)
    if g[0] == 'ok':
        return fail('unloadable source %r was loaded', result)
    if not same(state(s), before):
        return fail('state changed from %r to %r', before, state(s))
    for roe in (False, True):
        db = mkdb(sp, [args], d)
        db.raise_on_error = roe
        g = outcome(db.update)
        if (g[0] == 'exc') != roe:
            return fail('update with raise_on_error=%r: %r', roe, g)
        if snapshot(d) != snap:
            return fail('failed source reached the cache')


def c_update(inp):
    """results per source: ok value / RAISE / refused; update processes all, writes exactly the loaded ones"""
    results, prior, via_api, dry = inp
    d = scratch()
    cache = os.path.join(d, 'c')
    os.mkdir(cache)
    args = ['a%d' % i for i in range(len(results))]
    sp = FakeSpec(table={repr(a): {'v': 'old' + a} for a in args})
    db = mkdb(sp, args, cache)
    if prior:
        for s in db.sources:
            s.load_from_source()
            s.save_to_cache()
    sp.loads = []
    for a, r in zip(args, results):
        sp.table[repr(a)] = r
    before = snapshot(cache)
    db = mkdb(sp, args, cache)
    if via_api:
        um = need('xylem.update')
        DBorig = need('xylem.update:RulesDatabase')
        made = []
        um.RulesDatabase = lambda sc: made.append(db) or db
        ensured = []
        db.sources_context.ensure_cache_dir = lambda: ensured.append(1)
        try:
            g = outcome(um.update, dry_run=dry, config={'a': 1}, sources_context=db.sources_context)
        finally:
            um.RulesDatabase = DBorig
        if g[0] == 'exc':
            return fail('update raised %s', exc_name(g))
        if dry:
            if snapshot(cache) != before:
                return fail('dry run changed the cache')
            if ensured and not os.path.isdir(cache):
                return fail('dry run created the cache directory')
            return None
    else:
        db.raise_on_error = False
        g = outcome(db.update)
        if g[0] == 'exc':
            return fail('update raised %s', exc_name(g))
    if sorted(sp.loads) != sorted(args):
        return fail('sources loaded: %r of %r', sp.loads, args)
    after = snapshot(cache)
    for a, r, s in zip(args, results, db.sources):
        f = os.path.relpath(s.cache_file_path(), cache)
        bad = r in ('RAISE', 'refused') or (isinstance(r, dict) and r.get('bad'))
        if bad:
            if after.get(f) != before.get(f):
                return fail('cache of failed source %s was written', a)
        else:
            c = mkdb(sp, [a], cache).sources[0]
            g = outcome(c.load_from_cache)
            if g[0] == 'exc' or not same(c.data, r) or c.arguments != a or c.origin != s.origin:
                return fail('cache of %s: %r / %r, expected data %r', a, g, c.data, r)
    extra = set(after) - {os.path.relpath(s.cache_file_path(), cache) for s in db.sources}
    if extra:
        return fail('unexpected files in the cache: %r', sorted(extra))


def c_savefail(inp):
    """one cache location unwritable: the other sources are still processed"""
    n, k = inp
    d = scratch()
    args = ['a%d' % i for i in range(n)]
    sp = FakeSpec(table={repr(a): {'v': a} for a in args})
    db = mkdb(sp, args, d)
    os.mkdir(db.sources[k].cache_file_path())      # a directory in the way
    db.raise_on_error = False
    g = outcome(db.update)
    if g[0] == 'exc':
        return fail('update raised %s', exc_name(g))
    for i, s in enumerate(db.sources):
        if i != k and not os.path.isfile(s.cache_file_path()):
            return fail('source %d was not cached after a failure of source %d', i, k)
    if len(sp.loads) != n:
        return fail('loads %r', sp.loads)


def c_dbcache(inp):
    """database load_from_cache: each source from its own cache; sources with bad caches keep their state"""
    kinds = inp
    d = scratch()
    args = ['a%d' % i for i in range(len(kinds))]
    sp = FakeSpec(table={repr(a): {'v': a} for a in args})
    w = mkdb(sp, args, d)
    for k, s in zip(kinds, w.sources):
        if k != 'missing':
            s.load_from_source()
            s.save_to_cache()
        if k == 'corrupt':
            with open(s.cache_file_path(), 'wb') as f:
                f.write(b'garbage')
        if k == 'refused':
            s.data = {'bad': 1}
            s.save_to_cache()
    db = mkdb(sp, args, d)
    db.raise_on_error = False
    g = outcome(db.load_from_cache)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    for k, s, a in zip(kinds, db.sources, args):
        want = {'v': a} if k == 'ok' else None
        if not same(s.data, want):
            return fail('source %s (%s) has data %r', a, k, s.data)
    db = mkdb(sp, args, d)
    g = outcome(db.load_from_cache)
    if (g[0] == 'exc') != any(k != 'ok' for k in kinds):
        return fail('with raise_on_error: %r for %r', g, kinds)


CASES = dict(round=c_round, badcache=c_badcache, badsource=c_badsource, update=c_update, savefail=c_savefail, dbcache=c_dbcache)


def gen(rng, tier):
    datas = [{}, {'v': 1}, {'a': ['x', 'é'], 'b': {'c': None}}, [], None, 'text', {'old': 1}, 0, {'k': {'ubuntu': {'any_version': {'apt': {'packages': ['p']}}}}}]
    for a in ('http://x', 'é', 'a\x00', {'u': ['v']}, 1):
        for x in datas:
            yield 'round', (a, x)
    good = dict(xylem_version='1', spec_name='fake', spec_version=1, arguments='A', origin='O', data={'v': 2}, time_data_loaded=None)
    for pre in (False, True):
        for k in good:
            yield 'badcache', ('http://x', pre, {i: v for i, v in good.items() if i != k})
        for n in ('other', None, 'Fake', 'fake ', ''):
            yield 'badcache', ('http://x', pre, dict(good, spec_name=n))
        for x in ({'bad': 1}, {'bad': 1, 'v': 3}, 'refused'):
            yield 'badcache', ('http://x', pre, dict(good, data=x))
        for c in (b'', b'garbage', pickle.dumps(good, 2)[:-5], [], None, 1, 'x', list(good), {}):
            yield 'badcache', ('http://x', pre, c)
    for x in ('RAISE', 'refused', {'bad': 1}, {'bad': 2, 'v': 1}):
        for cached in (False, True):
            yield 'badsource', ('http://x', x, cached)
    import itertools
    for n in range(0, 4):
        for rs in itertools.product([{'v': 'new'}, 'RAISE', 'refused'], repeat=n):
            for prior in (False, True):
                for api, dry in ((False, False), (True, False), (True, True)):
                    yield 'update', (list(rs), prior, api, dry)
    for n in range(1, 4):
        for k in range(n):
            yield 'savefail', (n, k)
        for ks in itertools.product(['ok', 'missing', 'corrupt', 'refused'], repeat=n):
            yield 'dbcache', list(ks)
