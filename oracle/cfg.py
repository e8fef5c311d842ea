"""Independent reference semantics of the configuration types, and generators.

A type is written as a literal: 'Any' 'String' 'Boolean' 'Path',
('List', t), ('Dict', t), ('MergingDict', t).
"""
import os
from common import *

BAD = '<<bad>>'


def mktype(t):
    cu = 'xylem.config_utils:'
    if isinstance(t, str):
        return need(cu + t)()
    return need(cu + t[0])(mktype(t[1]))


def unset(t):
    return {} if isinstance(t, tuple) and t[0] == 'MergingDict' else None


def parse(t, v):
    """reference of from_yaml: parsed value, or raises ValueError"""
    if v is None:
        return unset(t)
    if t == 'Any':
        return v
    if t == 'String':
        if type(v) is not str:
            raise ValueError
        return v
    if t == 'Boolean':
        if type(v) is not bool:
            raise ValueError
        return v
    if t == 'Path':
        if type(v) is not str:
            raise ValueError
        return os.path.abspath(os.path.expanduser(v))
    if t[0] == 'List':
        if not isinstance(v, list):
            raise ValueError
        return [parse(t[1], x) for x in v]
    if not isinstance(v, dict):
        raise ValueError
    return {parse('String', k): parse(t[1], x) for k, x in v.items()}


def merge(t, vals):
    """first source setting it; merging dictionaries entry by entry"""
    if isinstance(t, tuple) and t[0] == 'MergingDict':
        r = {}
        for v in vals:
            for k, x in v.items():
                if k not in r:
                    r[k] = x
        return r
    for v in vals:
        if v is not None:
            return v
    return None


def welltyped(t, v):
    if v is None:
        return t == 'Any' or not (isinstance(t, tuple) and t[0] == 'MergingDict')
    if t == 'Any':
        return True
    if t in ('String', 'Path'):
        return type(v) is str
    if t == 'Boolean':
        return type(v) is bool
    if t[0] == 'List':
        return isinstance(v, list) and all(welltyped(t[1], x) for x in v)
    return isinstance(v, dict) and all(welltyped('String', k) and welltyped(t[1], x) for k, x in v.items())


TYPES = ['Any', 'String', 'Boolean', 'Path', ('List', 'String'), ('List', 'Any'), ('List', 'Boolean'),
         ('Dict', 'Any'), ('Dict', 'String'), ('MergingDict', 'Any'), ('MergingDict', ('List', 'String')),
         ('MergingDict', ('Dict', 'Any')), ('List', ('Dict', 'Boolean')), ('Dict', ('List', 'Path')),
         ('Dict', ('MergingDict', 'String')), ('List', ('List', 'String'))]


def rv(rng, t):
    """random good value for t (raw yaml)"""
    c = rng.random()
    if t == 'Any':
        return rng.choice(['s', 1, 0, False, True, [], {}, '', [1, {'a': 2}], {'k': [1]}, 2.5])
    if t == 'String':
        return rng.choice(['s', '', 'x y', 'None'])
    if t == 'Boolean':
        return rng.choice([True, False])
    if t == 'Path':
        return rng.choice(['/a/b', '~/x', '/a/../b/', 'rel/./p', '~', '/'])
    n = rng.choice([0, 1, 1, 2, 3])
    if t[0] == 'List':
        return [rvn(rng, t[1]) for _ in range(n)]
    return {k: rvn(rng, t[1]) for k in rng.sample(['a', 'b', 'c', 'd'], n)}


def rvn(rng, t):
    return None if rng.random() < 0.08 else rv(rng, t)


def bad(rng, t):
    return rng.choice(['s', 1, True, 1.5, [], {}, [1], {'a': 1}, {1: 'a'}, [['a']], [None], {None: 'x'}, ['a', 2],
                       {'a': None}, {'a': [1]}, {'a': {'b': 1}}, {'a': {1: 2}}, [{'a': 'x'}], {True: 'x'}, 0, ''])


def description(items):
    CD = need('xylem.config_utils:ConfigDescription')
    d = CD('config.yaml')
    for name, t, default, cl in items:
        k = {}
        if default is not None:
            k['default'] = default
        if cl:
            k['command_line'] = True
        d.add(name, type=mktype(t), **k)
    return d


def rdesc(rng, cl=True):
    names = rng.sample(['a', 'b_c', 'd-e', 'g/x', 'g/y', 'h/x', 'long/deep/z', 'w'], rng.randint(1, 6))
    items = []
    for n in names:
        t = rng.choice(TYPES)
        dv = parse(t, rv(rng, t)) if rng.random() < 0.4 else None
        items.append((n, t, dv, cl and rng.random() < 0.6))
    return items


def get(conf, name):
    if '/' in name:
        g, s = name.rsplit('/', 1)
        return conf[g][s]
    return conf[name]


def put(conf, name, v):
    if '/' in name:
        g, s = name.rsplit('/', 1)
        conf.setdefault(g, {})[s] = v
    else:
        conf[name] = v


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def keysof(items):
    want = {}
    for n, t, d, c in items:
        put(want, n, None)
    return want


def shape(conf, items):
    """exactly the described items"""
    want = keysof(items)
    if set(conf) != set(want):
        return fail('keys %r instead of %r', sorted(conf), sorted(want))
    for g in want:
        if isinstance(want[g], dict):
            if not isinstance(conf[g], dict) or set(conf[g]) != set(want[g]):
                return fail('group %s is %r', g, conf[g])


def raw_config(rng, items, badp=0.0, unknown=True):
    d = {}
    groups = {n.rsplit('/', 1)[0] for n, _, _, _ in items if '/' in n}
    for n, t, _, _ in items:
        c = rng.random()
        if c < 0.35:
            continue
        if c < 0.42:
            put(d, n, None)
        elif rng.random() < badp:
            put(d, n, bad(rng, t))
        else:
            put(d, n, rv(rng, t))
    for g in groups:
        if rng.random() < 0.1 and g not in d:
            d[g] = None
    if unknown and rng.random() < 0.4:
        d['unknown'] = rng.choice([1, {'x': 1}, None])
        for g in groups:
            if isinstance(d.get(g), dict):
                d[g]['unknown'] = 5
    return d


def ref_yaml(items, d):
    r = {}
    for n, t, _, _ in items:
        if '/' in n:
            g, s = n.rsplit('/', 1)
            gd = d.get(g)
            if gd is None:
                gd = {}
            if not isinstance(gd, dict):
                raise ValueError
            put(r, n, parse(t, gd.get(s)))
        else:
            put(r, n, parse(t, d.get(n)))
    return r


def ref_defaults(items):
    r = {}
    for n, t, d, _ in items:
        put(r, n, unset(t) if d is None else d)
    return r


def ref_merge(items, confs):
    r = {}
    for n, t, _, _ in items:
        put(r, n, merge(t, [get(c, n) for c in confs]))
    return r


def dash(n):
    return n.replace('_', '-').replace('/', '-')
