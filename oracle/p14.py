import argparse
import json
import os
from cfg import *
RULE = 'random descriptions (16 types, groups, defaults) x 1-4 configurations; plus whole cascades with command line, user and system file and environment on disk; non-trivial: at least one item set by two sources'


def c_merge(inp):
    items, raws, defaults = inp
    D = description(items)
    f = need('xylem.config_utils:merge_configs')
    p = need('xylem.config_utils:config_from_parsed_yaml')
    fd = need('xylem.config_utils:config_from_defaults')
    confs = [p(dc(r), D) for r in raws]
    if defaults:
        confs.append(fd(D))
    refs = [ref_yaml(items, r) for r in raws] + ([ref_defaults(items)] if defaults else [])
    for a, b in zip(confs, refs):
        if not same(plain(a), b):
            return None  # parsing is P15's business
    saved = dc([plain(c) for c in confs])
    g = outcome(f, D, *confs)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    m = shape(g[1], items)
    if m:
        return m
    want = ref_merge(items, refs)
    if not same(plain(g[1]), want):
        return fail('merged %r, expected %r', plain(g[1]), want)
    if not same([plain(c) for c in confs], saved):
        return fail('a source configuration is modified: %r', confs)
    if not same(plain(fd(D)), ref_defaults(items)):
        return fail('defaults are modified: %r', fd(D))
    # attribute access
    for n, t, _, _ in items:
        o = g[1]
        for part in ([n] if '/' not in n else n.rsplit('/', 1)):
            o = getattr(o, part)
        if not same(plain(o), get(want, n)):
            return fail('attribute %s is %r', n, o)


def c_defaults(inp):
    items, raw = inp
    D = description(items)
    p = need('xylem.config_utils:config_from_parsed_yaml')
    md = need('xylem.config_utils:merge_with_defaults')
    ref = ref_yaml(items, raw)
    for g in (outcome(p, dc(raw), D, use_defaults=True), outcome(lambda: md(D, p(dc(raw), D)))):
        if g[0] == 'exc':
            return fail('raised %s', exc_name(g))
        want = ref_merge(items, [ref, ref_defaults(items)])
        if not same(plain(g[1]), want):
            return fail('with defaults %r, expected %r', plain(g[1]), want)


def c_cascade(inp):
    """load_config with real files"""
    items, user, system, cdir, cl, no_user, use_dir = inp
    D = description(items)
    load = need('xylem.config_utils:load_config')
    ucd = need('xylem.config_utils:user_config_dir')
    w = os.environ['VERIF_WORK']
    prefix = os.path.join(w, 'p14prefix')
    paths = {'user': ucd('p14tool'), 'system': os.path.join(prefix, 'etc', 'p14tool'), 'dir': os.path.join(w, 'p14dir')}
    if not os.path.abspath(paths['user']).startswith(w):
        raise Skip('user directory outside of the scratch directory')
    for k, raw in (('user', user), ('system', system), ('dir', cdir)):
        os.makedirs(paths[k], exist_ok=True)
        fn = os.path.join(paths[k], 'config.yaml')
        if raw is None:
            if os.path.exists(fn):
                os.unlink(fn)
        else:
            with open(fn, 'w') as h:
                h.write('' if raw == '' else json.dumps(raw))
    ns = argparse.Namespace(config_dir=paths['dir'] if use_dir else None, prefix=prefix, no_user_config=no_user)
    clraw = {}
    for n, t, d, c in items:
        if c:
            v = cl.get(n)
            setattr(ns, dash(n).replace('-', '_'), v)
            if v is not None:
                from_cl(clraw, n, t, v)
            else:
                put(clraw, n, None)
        else:
            put(clraw, n, None)
    files = [cdir] if use_dir else ([system] if no_user else [user, system])
    refs = [ref_yaml(items, clraw)] + [ref_yaml(items, r or {}) for r in files] + [ref_defaults(items)]
    want = ref_merge(items, refs)
    g = outcome(load, ns, D, 'p14tool')
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    if not same(plain(g[1]), want):
        return fail('effective configuration %r, expected %r', plain(g[1]), want)


def from_cl(r, n, t, v):
    if t in ('String', 'Path'):
        put(r, n, v)
    elif t in ('Any', 'Boolean'):
        put(r, n, json.loads(v))
    elif t[0] == 'List':
        put(r, n, [x for s in v for x in json.loads(s)])
    else:
        put(r, n, {k: x for s in v for k, x in json.loads(s).items()})


def to_cl(rng, t):
    v = rv(rng, t)
    if t in ('String', 'Path'):
        return v
    if t in ('Any', 'Boolean'):
        return json.dumps(v)
    if t[0] == 'List':
        return [json.dumps(v)] if rng.random() < .7 else [json.dumps(v[:1]), json.dumps(v[1:])]
    return [json.dumps(v)]


CASES = dict(merge=c_merge, defaults=c_defaults, cascade=c_cascade)


def gen(rng, tier):
    n = 1200 if tier == 'quick' else 12000
    for _ in range(n):
        items = rdesc(rng)
        raws = [raw_config(rng, items) for _ in range(rng.randint(1, 3))]
        yield 'merge', (items, raws, rng.random() < .6)
        yield 'defaults', (items, raws[0])
    # one item of each type, set / unset in three levels
    for t in TYPES:
        for m in range(8):
            for grp in ('k', 'g/k'):
                it = [(grp, t, parse(t, rv(rng, t)), False)]
                rs = []
                for b in range(3):
                    d = {}
                    if m >> b & 1:
                        put(d, grp, rv(rng, t))
                    rs.append(d)
                yield 'merge', (it, rs, True)
    for _ in range(n // 3):
        items = rdesc(rng)
        cl = {x[0]: to_cl(rng, x[1]) for x in items if x[3] and rng.random() < .5}
        fs = [rng.choice([None, '']) if rng.random() < .15 else raw_config(rng, items) for _ in range(3)]
        yield 'cascade', (items, fs[0], fs[1], fs[2], cl, rng.random() < .3, rng.random() < .3)
