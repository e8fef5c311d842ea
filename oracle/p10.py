import itertools
from common import *
from inst import *
import p09
RULE = 'lists of 0-6 groups over 3 installers (exhaustive for <= 4 groups of fixed content), filtered by random installed sets; whole installs for the prerequisites'


def c_squash(inp):
    f = need('xylem.install:_squash_resolutions')
    i0 = dc(inp)
    for arg in (inp, iter(inp)):
        g = outcome(lambda: list(f(arg)))
        if g[0] == 'exc':
            return fail('raised %s', exc_name(g))
        flat = [(n, r) for n, rs in inp for r in rs]
        if [(n, r) for n, rs in g[1] for r in rs] != flat:
            return fail('%r became %r', inp, g[1])
        names = [n for n, _ in g[1]]
        if any(a == b for a, b in zip(names, names[1:])):
            return fail('neighbouring groups of one installer: %r', g[1])
    if not same(inp, i0):
        return fail('changed its argument to %r', inp)


def c_map(inp):
    f = need('xylem.install:_map_resolutions')
    i0 = dc(inp)
    g = outcome(f, inp)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    want = {}
    for n, rs in i0:
        want.setdefault(n, []).extend(rs)
    if not same(dict(g[1]), want):
        return fail('gave %r, expected %r', g[1], want)
    if not same(inp, i0):
        return fail('changed its argument to %r', inp)


def c_filter(inp):
    groups, installed, failing = inp
    log = []
    names = sorted({n for n, _ in groups})
    plugs = [p09.FakeInst(n, {'filterfail': n in failing}, log, set(installed)) for n in names]
    ic = mkctx(plugs, names)
    g0 = dc(groups)
    g = outcome(need('xylem.install:filter_uninstalled'), groups, ic)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    if not same(groups, g0):
        return fail('changed its argument to %r', groups)
    un, errs = g[1]
    want = [(n, [r for r in rs if r not in installed]) for n, rs in groups if n not in failing]
    got = [(n, list(rs)) for n, rs in un if n not in failing]
    if [x for x in got] != [x for x in want if x[1]]:
        return fail('kept %r, expected %r', got, [x for x in want if x[1]])
    if len(errs) != sum(1 for n, _ in groups if n in failing):
        return fail('errors %r', errs)


def c_general(inp):
    names, missing = inp
    log = []
    plugs = [p09.FakeInst(n, {}, log, set()) for n in sorted(set(names)) if n != missing]
    ic = mkctx(plugs)
    g = outcome(need('xylem.install:check_general_prerequisites'), list(names), ic, True, False)
    if missing in names:
        if g[0] == 'ok' or not isinstance(g[1], need('xylem.exception:XylemInternalError')):
            return fail('missing installer: %r', g)
        return None
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    if [x[1] for x in log] != list(names) or any(x[2:] != (True, False) for x in log):
        return fail('checks %r for %r', log, names)


CASES = dict(squash=c_squash, map=c_map, filter=c_filter, general=c_general, install=p09.c_install)


def gen(rng, tier):
    cnt = [0]

    def items(k):
        cnt[0] += 1
        return ['%d_%d' % (cnt[0] % 50, j) for j in range(k)]
    for n in range(0, 5):
        for names in itertools.product('ab', repeat=n):
            for sz in ([1] * n, [2, 0, 1, 3][:n], [0] * n, [0, 1, 0, 1][:n]):
                gs = [(a, items(s)) for a, s in zip(names, sz)]
                yield 'squash', gs
                yield 'map', gs
    for ns in ([], ['a'], ['a', 'b'], ['b', 'a', 'c']):
        for m in (None, 'a', 'c'):
            yield 'general', (ns, m)
    n = 800 if tier == 'quick' else 10000
    for i in range(n):
        gs = [(rng.choice(['a', 'b', 'c']), [rng.choice('pqrstu') for _ in range(rng.randint(0, 3))]) for _ in range(rng.randint(0, 6))]
        yield 'squash', gs
        yield 'map', gs
        yield 'filter', (gs, rng.sample('pqrstu', rng.randint(0, 6)), [x for x in 'abc' if rng.random() < .15])
    k = 0
    for it in p09.gen(rng, tier):
        if it[0] == 'install':
            k += 1
            yield it
