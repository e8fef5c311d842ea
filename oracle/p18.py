import itertools
from common import *
RULE = 'random sequences (0-7) of plugin definitions from 16 shapes (valid, duplicate name, malformed, wrong class, disabled, invalid object name) x disabled lists; non-trivial: at least two definitions'

SHAPES = ['ok', 'noname', 'nodesc', 'nokind', 'badname', 'baddesc', 'notclass', 'wrongclass', 'notdict', 'none', 'bytesname', 'kindnone', 'instance']


def c_load(inp):
    entries, disabled, base_ok = inp
    load = need('xylem.plugin_utils:load_plugins')
    PB = need('xylem.plugin_utils:PluginBase')
    pk = need('pkg_resources:')
    created = []

    class Base(PB if base_ok else object):
        pass

    class Other(PB):
        name = 'other'

        def __init__(self):
            created.append('other')

    eps, want = [], []
    seen = set()
    loaded = []
    for i, (shape, pname, oname) in enumerate(entries):
        def init(self, i=i):
            created.append(i)
            self.idx = i
        ns = {'__init__': init, 'name': oname}
        if not base_ok:
            ns['verify_plugin'] = classmethod(lambda cls, o: None)
        C = type(str('C%d' % i), (Base,), ns)
        d = {'plugin_name': pname, 'description': 'd', 'kind': C}
        if shape == 'noname':
            del d['plugin_name']
        elif shape == 'nodesc':
            del d['description']
        elif shape == 'nokind':
            del d['kind']
            d['otherkind'] = C
        elif shape == 'badname':
            d['plugin_name'] = 5
        elif shape == 'bytesname':
            d['plugin_name'] = pname.encode()
        elif shape == 'baddesc':
            d['description'] = None
        elif shape == 'notclass':
            d['kind'] = 'C'
        elif shape == 'kindnone':
            d['kind'] = None
        elif shape == 'instance':
            d['kind'] = object()
        elif shape == 'wrongclass':
            d['kind'] = Other
        elif shape == 'notdict':
            d = [1]
        elif shape == 'none':
            d = None

        def ld(i=i, d=d, **k):
            loaded.append(i)
            return d
        ep = Rec(name='ep%d' % i, load=ld, resolve=ld, module_name='m', attrs=(), dist=None)
        eps.append(ep)
        if shape == 'ok' and base_ok and pname not in disabled:
            want.append((i, oname))
    inst = [i for i, _ in want]
    res = []
    names = need('xylem.sources.rules_dict:verify_rules_dict_identifier')
    for i, n in want:
        if outcome(names, n, 'x')[0] == 'exc':
            continue
        if n in seen:
            continue
        seen.add(n)
        res.append(i)
    old = pk.iter_entry_points
    asked = []

    def it(group, name=None):
        asked.append(group)
        return iter(eps)
    pk.iter_entry_points = it
    mod = need('xylem.plugin_utils:')
    old2 = mod.__dict__.get('iter_entry_points')
    if old2 is not None:
        mod.iter_entry_points = it
    dis0 = dc(disabled)
    try:
        g = outcome(load, 'kind', Base, 'the.group', disabled)
    finally:
        pk.iter_entry_points = old
        if old2 is not None:
            mod.iter_entry_points = old2
    if not asked:
        raise Skip('entry points not read through pkg_resources')
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    if set(asked) != {'the.group'}:
        return fail('group %r read', asked)
    got = [getattr(o, 'idx', None) for o in g[1]]
    if got != res:
        return fail('loaded %r, expected %r', got, res)
    for i in created:
        if i not in inst:
            return fail('definition %r instantiated', i)
    if created.count('other') or disabled != dis0:
        return fail('instantiated or modified')


def c_reserved(name):
    return c_load(([('ok', 'p', name), ('ok', 'q', 'fine')], [], True))


CASES = dict(load=c_load, reserved=c_reserved)


def gen(rng, tier):
    onames = ['a', 'b', 'c', 'any_os', 'any_version', 'default_installer', 'x y', '', 'a-b', 'a.b', 'a\n', '-', 5, None, 'A_9']
    pn = ['p', 'q', 'r', 'a']
    yield 'load', ([], [], True)
    for n in onames:
        yield 'reserved', n
    for s in SHAPES:
        for pos in range(3):
            e = [('ok', 'p', 'a'), ('ok', 'q', 'b')]
            e.insert(pos, (s, 'r', 'c'))
            yield 'load', (e, [], True)
            yield 'load', (e, ['r'], True)
            yield 'load', (e, ['c', 'p'], True)
            yield 'load', (e, [], False)
    for t in itertools.product('ab', repeat=4):
        yield 'load', ([('ok', 'p%d' % i, n) for i, n in enumerate(t)], [], True)
        yield 'load', ([('ok', 'p%d' % i, n) for i, n in enumerate(t)], ['p0', 'p2'], True)
        yield 'load', ([('ok', 'p', n) for i, n in enumerate(t)], [], True)
    for _ in range(600 if tier == 'quick' else 6000):
        e = [(rng.choice(['ok', 'ok', 'ok', rng.choice(SHAPES)]), rng.choice(pn), rng.choice(onames[:6] if rng.random() < .8 else onames))
             for _ in range(rng.randint(0, 7))]
        yield 'load', (e, rng.sample(pn, rng.choice([0, 0, 1, 2])), True), len(e) > 1
