import itertools
from common import *
RULE = 'random installer rules (valid, ill-typed, with options described by the installer); pairs of resolutions over a pool of entry orders and values'


def mk(options=()):
    IB = need('xylem.installers.installer_base:InstallerBase')
    cu = need('xylem.config_utils')

    class I(IB):
        name = 'inst'

        def __init__(self):
            super(I, self).__init__()
            for n, t, d in options:
                self.installer_rule_description.add(n, type={'any': cu.Any, 'str': cu.String, 'list': cu.List(cu.String), 'dict': cu.Dict(cu.Any)}[t], default=d)

        def get_install_commands_no_root(self, resolved, interactive=True, reinstall=False):
            return []

        def filter_uninstalled(self, resolved):
            return resolved

        def check_general_prerequisites(self, *a, **k):
            pass

        def check_install_prerequisites(self, *a, **k):
            pass
    return I()


def typed(t, v):
    if v is None:
        return True
    if t == 'any':
        return True
    if t == 'str':
        return isinstance(v, str)
    if t == 'list':
        return isinstance(v, list) and all(x is None or isinstance(x, str) for x in v)
    return isinstance(v, dict) and all(x is None or isinstance(x, str) for x in v)


def c_rule(inp):
    opts, rule = inp
    i = mk(opts)
    r0 = dc(rule)
    Inv = need('xylem.installers:InvalidRuleError')
    bad = not isinstance(rule, dict)
    if not bad:
        desc = dict([('packages', 'list'), ('depends', 'list')] + [(n, t) for n, t, _ in opts])
        bad = not all(typed(t, rule.get(n)) for n, t in desc.items())
    g, d = outcome(i.resolve, rule), outcome(i.get_depends, rule)
    if not same(rule, r0):
        return fail('resolving changed the rule to %r', rule)
    if bad:
        for x in (g, d):
            if x[0] == 'ok':
                return fail('malformed rule accepted: %r', x[1])
            if not isinstance(x[1], Inv):
                return fail('malformed rule raised %s', exc_name(x))
        return None
    if g[0] == 'exc' or d[0] == 'exc':
        return fail('valid rule rejected: %r %r', g[1], d[1])
    pk = rule.get('packages')
    pk = pk if pk is not None else []
    if [x.get('package') for x in g[1]] != pk:
        return fail('packages %r gave %r', pk, g[1])
    want = {}
    for n, t, df in opts:
        v = rule.get(n)
        want[n] = df if v is None else v
    for x, p in zip(g[1], pk):
        if not same({k: v for k, v in x.items() if not k.startswith('_')}, dict(want, package=p)):
            return fail('resolution %r, expected %r', dict(x), dict(want, package=p))
        if x.package != p:
            return fail('attribute access gives %r', x.package)
    dep = rule.get('depends')
    if d[1] != (dep if dep is not None else []):
        return fail('dependencies %r of %r', d[1], rule)
    if g[1]:
        before = [dict(x) for x in g[1][1:]]
        g[1][0]['package'] = 'changed'
        g[1][0]['new'] = 1
        if [dict(x) for x in g[1][1:]] != before:
            return fail('resolutions of one rule share entries')
        if not same(rule, r0):
            return fail('changing a resolution changes the rule')
        g2 = outcome(i.resolve, rule)
        if g2[0] == 'exc' or [x.package for x in g2[1]] != pk:
            return fail('second resolve gives %r', g2)


def c_eq(inp):
    a, b = inp
    R = need('xylem.installers.installer_base:Resolution')
    x, y = R(a), R(b)
    e = dict(a) == dict(b)
    if (x == y) != e or (y == x) != e or (x != y) == e:
        return fail('equality of %r and %r: %r', a, b, x == y)
    for z in (x, y):
        h = outcome(hash, z)
        if h[0] == 'exc':
            return fail('not hashable: %s', exc_name(h))
    if e and hash(x) != hash(y):
        return fail('equal resolutions %r and %r have different hashes', a, b)
    if hash(R(a)) != hash(R(list(a.items()))):
        return fail('hash depends on construction')
    if e:
        s = {x}
        if y not in s:
            return fail('equal resolution not found in a set')
        rd = need('xylem.util:remove_duplicates')([x, y])
        if len(rd) != 1:
            return fail('duplicates not removed')


CASES = dict(rule=c_rule, eq=c_eq)
OPTS = [(), (('opt', 'any', None),), (('opts', 'list', ['d']), ('v', 'str', 'x')), (('conf', 'dict', None),)]


def gen(rng, tier):
    vals = [None, [], ['a'], ['a', 'b', 'a'], 'x', 1, {}, ['a', 1], [None], {'k': 'v'}, [['a']], True]
    for o in OPTS:
        for v in vals:
            for w in vals:
                yield 'rule', (o, {'packages': v, 'depends': w})
                for n, _, _ in o:
                    yield 'rule', (o, {'packages': ['p', 'q'], n: v, 'depends': w})
            yield 'rule', (o, {'packages': v})
            yield 'rule', (o, {'depends': v})
            yield 'rule', (o, {'packages': ['z', 'y'], 'unknown': v})
        yield 'rule', (o, {})
    for b in (None, [], ['packages'], 'x', 1, [('packages', ['a'])]):
        yield 'rule', ((), b)
    ent = [('package', 'a'), ('package', 'b'), ('opts', ['x']), ('opts', ['y']), ('opts', []), ('v', {'k': 1}), ('v', {'k': 1.0}), ('w', None), ('opts', {'a': ['b']}), ('v', 1), ('v', True)]
    pool = [[]]
    for n in (1, 2, 3):
        for c in itertools.combinations(ent, n):
            if len({k for k, _ in c}) == n:
                pool.append(list(c))
                if n > 1:
                    pool.append(list(c)[::-1])
    ps = [dict(p) for p in pool]
    for i, a in enumerate(ps):
        for b in ([ps[i]] + (ps if tier == 'thorough' else rng.sample(ps, 25)) + ps[max(0, i - 2):i + 3]):
            yield 'eq', (a, b)
