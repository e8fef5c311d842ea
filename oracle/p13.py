import itertools
from common import *
RULE = 'random name/mapping tables (absent, dictionary, function mappings) x versions known and unknown; version lists up to 6 with all pairs'

FNS = {'id': lambda v: v, 'none': lambda v: None, 'up': lambda v: v + '+'}


def mk(levels, versions=('v',)):
    B = need('xylem.os_support.plugins:_OSDetecorBase')

    class O(B):
        def __init__(self):
            super(O, self).__init__()
            self._versions = list(versions)
            for name, mp in reversed(levels):
                self._prepend_name(name, FNS[mp] if isinstance(mp, str) else mp)
    return O()


def c_tuples(inp):
    levels, version = inp
    o = mk(levels)
    if list(o.all_names) != [n for n, _ in levels]:
        return fail('names %r', o.all_names)
    l0 = dc(levels)
    g = outcome(lambda: list(o.get_all_tuples(version)))
    want, v = [], version
    for n, mp in levels:
        want.append((n, v))
        if v is not None:
            v = None if mp is None else (mp.get(v) if isinstance(mp, dict) else FNS[mp](v))
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    if g[1] != want:
        return fail('gave %r, expected %r', g[1], want)
    if not same(levels, l0) or list(o.all_names) != [n for n, _ in levels]:
        return fail('modified')
    if o.get_all_tuples(version) != want:
        return fail('second call gives %r', o.get_all_tuples(version))
    # through an override
    if o.name != levels[0][0]:
        return fail('name %r', o.name)


def c_order(inp):
    vs, others = inp
    f = need('xylem.os_support.os_base:version_order_from_list')
    UV = need('xylem.os_support.impl:UnsupportedOSVersionError')
    v0 = list(vs)
    less = f(vs)
    o = mk([('n', None)], vs)
    for get in (lambda: less, lambda: o.version_less_fn):
        l = get()
        for i, a in enumerate(v0):
            for j, b in enumerate(v0):
                g = outcome(l, a, b)
                if g[0] == 'exc' or bool(g[1]) != (i < j):
                    return fail('%r < %r is %r', a, b, g)
        for u in others:
            if u in v0:
                continue
            for a in v0 + [u]:
                for x, y in ((a, u), (u, a)):
                    g = outcome(l, x, y)
                    if g[0] == 'ok' or not isinstance(g[1], UV):
                        return fail('unknown version compared: %r < %r is %r', x, y, g)
    vs.append('later')
    vs.reverse()
    for i, a in enumerate(v0):
        for j, b in enumerate(v0):
            if bool(less(a, b)) != (i < j):
                return fail('order changes with the passed list')


def c_real(inp):
    """shipped plugins"""
    cls, names = inp
    C = need('xylem.os_support.plugins:' + cls)
    o = C()
    if list(o.all_names) != names:
        return fail('names %r', o.all_names)
    UV = need('xylem.os_support.impl:UnsupportedOSVersionError')
    ks = list(o.known_versions)
    less = o.version_less_fn
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            if bool(less(a, b)) != (i < j):
                return fail('order of %r, %r', a, b)
        t = o.get_all_tuples(a)
        if t[0] != (o.name, a) or [n for n, _ in t] != names:
            return fail('tuples %r', t)
        if cls == 'Xubuntu' and t[1] != ('ubuntu', a):
            return fail('tuples %r', t)
        if cls in ('Xubuntu', 'Ubuntu') and t[-1] != ('debian', None):
            return fail('tuples %r', t)
    if o.get_all_tuples(None) != [(n, None) for n in names]:
        return fail('tuples of an unknown version: %r', o.get_all_tuples(None))


def c_get(inp):
    """get_tuple is (name, detected version)"""
    B = need('xylem.os_support.os_base:OSBase')
    names, v = inp

    class O(B):
        all_names = names

        def get_version(self):
            return v
        get_all_tuples = get_core_installers = is_os = lambda self, *a: None
        known_versions = ['x']
    o = O()
    if o.get_tuple() != (names[0], v) or o.name != names[0]:
        return fail('get_tuple %r', o.get_tuple())
    if o.default_installer is not None:
        return fail('default installer %r', o.default_installer)


CASES = dict(tuples=c_tuples, order=c_order, real=c_real, get=c_get)


def gen(rng, tier):
    maps = [None, 'id', 'none', 'up', {}, {'v': 'w'}, {'v': None}, {'w': 'x'}, {'v': 'v', 'w': 'u'}, {'v': ''}, {'': 'v'}]
    for k in range(1, 4):
        for mp in itertools.product(maps, repeat=k) if k < 3 else (tuple(rng.choice(maps) for _ in range(3)) for _ in range(400)):
            for v in ('v', 'w', None, 'zz', ''):
                yield 'tuples', ([('os%d' % i, m) for i, m in enumerate(mp)], v)
    for cls, names in (('Debian', ['debian']), ('Ubuntu', ['ubuntu', 'debian']), ('Xubuntu', ['xubuntu', 'ubuntu', 'debian']), ('OSX', ['osx'])):
        yield 'real', (cls, names)
    for ns in (['a'], ['b', 'a']):
        for v in ('1', None, 'x y'):
            yield 'get', (ns, v)
    for k in range(0, 5):
        for p in itertools.permutations(['10', '9', 'lucid', 'Z'], k):
            yield 'order', (list(p), ['9', 'zz', '', None, 'lucid', 'Z '])
