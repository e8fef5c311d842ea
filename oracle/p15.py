import json
import argparse
import os
from cfg import *
RULE = 'random descriptions and YAML-shaped values, good and ill-typed at every nesting level; command line strings from a corpus of well-formed, shorthand and malformed YAML; non-trivial: at least one value given'


def c_item(inp):
    t, v = inp
    T = mktype(t)
    CVE = need('xylem.config_utils:ConfigValueError')
    try:
        want = ('ok', parse(t, v))
    except ValueError:
        want = ('exc',)
    v0 = dc(v)
    g = outcome(T.from_yaml, v)
    if not same(v, v0):
        return fail('input modified: %r -> %r', v0, v)
    if g[0] == 'exc' and not isinstance(g[1], CVE):
        return fail('raised %s', exc_name(g))
    if g[0] != want[0]:
        return fail('%s, expected %s', g, want)
    if g[0] == 'ok':
        if not same(g[1], want[1]):
            return fail('parsed as %r, expected %r', g[1], want[1])
        if not welltyped(t, g[1]):
            return fail('ill-typed %r', g[1])
        h = outcome(T.from_yaml, dc(g[1]))
        if h[0] == 'exc' or not same(h[1], g[1]):
            return fail('parsed again: %s', h)
        h = outcome(T.verify, g[1])
        if h[0] == 'exc' or h[1] is not g[1]:
            return fail('verify: %s', h)


def c_verify(inp):
    t, v = inp
    T = mktype(t)
    CVE = need('xylem.config_utils:ConfigValueError')
    g = outcome(T.verify, v)
    if g[0] == 'exc' and not isinstance(g[1], CVE):
        return fail('verify raised %s', exc_name(g))
    if (g[0] == 'ok') != welltyped(t, v) and not (v is None or unhash(t, v)):
        return fail('verify(%r) gives %s', v, g)


def unhash(t, v):
    return isinstance(t, tuple) and t[0] == 'MergingDict' and v is None or 'MergingDict' in repr(t)


def c_yaml(inp):
    items, raw = inp
    D = description(items)
    f = need('xylem.config_utils:config_from_parsed_yaml')
    CVE = need('xylem.config_utils:ConfigValueError')
    try:
        if not isinstance(raw, dict):
            raise ValueError
        want = ('ok', ref_yaml(items, raw))
    except ValueError:
        want = ('exc',)
    r0 = dc(raw)
    g = outcome(f, raw, D)
    if not same(raw, r0):
        return fail('input modified: %r', raw)
    if g[0] == 'exc' and not isinstance(g[1], CVE):
        return fail('raised %s', exc_name(g))
    if g[0] != want[0]:
        return fail('%s, expected %s', g, want)
    if g[0] == 'ok':
        m = shape(g[1], items)
        if m:
            return m
        if not same(plain(g[1]), want[1]):
            return fail('parsed as %r, expected %r', plain(g[1]), want[1])
        h = outcome(f, plain(dc(g[1])), D)
        if h[0] == 'exc' or not same(plain(h[1]), want[1]):
            return fail('parsed again: %s', h)


CL = ['', ' ', 'a', 'a,b', '[a, b]', '[a', 'a]', '{a: 1}', 'a: 1', 'a: b, c: d', 'a: [x], b: [y,z]', '{', '}', '"', "'", '- a', '[1,2]',
      'yes', 'no', 'true', 'null', '~', '1', '[]', '{}', '[[a],[b]]', '[[a', 'a: {b: 1}', '{a: {b: true}}', '%', '@x', '`', '!!python/x y',
      '&a [*a]', '? [a]\n: b', '2001-13-45', '!!int x', 'a: !!float zz', '*x', '{[a]: b}', '{{a: b}: c}', '[1]: 2', '\t', 'a:\n\tb', '\x00', '\u20ac',
      '/a/../b', '~/q', '0x', '1:60', '.inf', '!!bool maybe', '!!binary zz', '!!timestamp x', '!!set {a}', '!!omap [a]', '{<<: 3}', '{<<: {a: b}, c: d}', '{? [x] : y}',
      '[a]: b, c: d', 'x}', 'x], [y', 'x}, {y: 1', '#', 'a #b', '--- a\n--- b', 'a: 1, a: 2']


def c_cl(inp):
    t, v = inp
    T = mktype(t)
    CVE = need('xylem.config_utils:ConfigValueError')
    g = outcome(T.from_command_line, dc(v))
    if g[0] == 'exc':
        if not isinstance(g[1], CVE):
            return fail('from_command_line(%r) raised %s', v, exc_name(g))
    elif not welltyped(t, g[1]):
        return fail('from_command_line(%r) gives ill-typed %r', v, g[1])
    # what must be accepted
    if v is None:
        if g[0] == 'exc' or not same(g[1], unset(t)):
            return fail('unset argument: %s', g)
    elif t == 'String':
        if g[0] == 'exc' or g[1] != v:
            return fail('string %r gives %s', v, g)
    elif t == 'Path':
        if g[0] == 'exc' or g[1] != os.path.abspath(os.path.expanduser(v)):
            return fail('path %r gives %s', v, g)


def c_clgood(inp):
    t, vals = inp
    T = mktype(t)
    try:
        if isinstance(t, tuple):
            seq = [json.dumps(v) for v in vals]
            if t[0] == 'List':
                whole = [x for v in vals for x in v]
            else:
                whole = {}
                for v in vals:
                    if set(v) & set(whole):
                        g = outcome(T.from_command_line, seq)
                        CVE = need('xylem.config_utils:ConfigValueError')
                        return None if g[0] == 'exc' and isinstance(g[1], CVE) else fail('duplicate keys: %s', g)
                    whole.update(v)
            want = parse(t, whole)
            forms = [seq]
            if all(s != '[]' and s != '{}' for s in seq):
                # the outer brackets can be omitted
                if all(len(v) > 0 for v in vals) and not (t[0] == 'List' and any(len(v) == 1 and isinstance(v[0], list) for v in vals)):
                    forms.append([s[1:-1] for s in seq])
            if len(seq) == 1:
                forms.append(seq[0])
        else:
            want = parse(t, vals)
            forms = [vals if t in ('String', 'Path') else json.dumps(vals)]
    except ValueError:
        return None
    for fm in forms:
        g = outcome(T.from_command_line, fm)
        if g[0] == 'exc' or not same(g[1], want):
            return fail('%r gives %s, expected %r', fm, g, want)


def c_args(inp):
    items, cl = inp
    D = description(items)
    f = need('xylem.config_utils:config_from_args')
    CVE = need('xylem.config_utils:ConfigValueError')
    parser = argparse.ArgumentParser()
    D.add_arguments(parser)
    argv = []
    for n, t, d, c in items:
        if c and n in cl:
            for v in cl[n]:
                argv.append('--%s=%s' % (dash(n), v))
    ns = parser.parse_args(argv)
    g = outcome(f, ns, D)
    if g[0] == 'exc':
        return None if isinstance(g[1], CVE) else fail('raised %s', exc_name(g))
    m = shape(g[1], items)
    if m:
        return m
    for n, t, d, c in items:
        v = get(g[1], n)
        if not welltyped(t, v):
            return fail('%s is ill-typed %r', n, v)
        if not (c and n in cl) and not same(plain(v), unset(t)):
            return fail('%s not given but %r', n, v)


def c_file(inp):
    """config_from_file: missing and empty files, undecodable, malformed"""
    content, items = inp
    D = description(items)
    f = need('xylem.config_utils:config_from_file')
    CVE = need('xylem.config_utils:ConfigValueError')
    fn = os.path.join(os.environ['VERIF_WORK'], 'p15.yaml')
    if content is None:
        if os.path.exists(fn):
            os.unlink(fn)
    else:
        with open(fn, 'wb') as h:
            h.write(content)
    g = outcome(f, fn, D)
    if g[0] == 'exc':
        if not isinstance(g[1], CVE):
            return fail('raised %s', exc_name(g))
        if content in (None, b'', b'# c\n', b'{}'):
            return fail('raised %s', exc_name(g))
        return
    m = shape(g[1], items)
    if m:
        return m
    for n, t, d, c in items:
        if not welltyped(t, get(g[1], n)):
            return fail('%s ill-typed', n)
        if content in (None, b'', b'# c\n', b'{}') and not same(plain(get(g[1], n)), unset(t)):
            return fail('%s not unset', n)


CASES = dict(item=c_item, verify=c_verify, yaml=c_yaml, cl=c_cl, clgood=c_clgood, args=c_args, file=c_file)


def gen(rng, tier):
    n = 1500 if tier == 'quick' else 15000
    for t in TYPES:
        for v in (None, 's', '', 1, 0, True, False, 1.5, [], {}, [None], ['a'], [1], [True], [[]], [{}], {'a': None}, {'a': 'b'}, {1: 'b'},
                  {'a': 1}, {None: 'x'}, {'a': []}, {'a': ['b']}, {'a': [1]}, {'a': {}}, {'a': {'b': 'c'}}, {'a': {1: 'c'}}, [['a']], [['a', 1]],
                  [{'a': True}], [{'a': 'x'}], {'a': ['/x/../y', None]}, ['a', None, 'b'], {'a': {'b': 1}}, '~', '/x/./y'):
            yield 'item', (t, v), v is not None
            yield 'verify', (t, v), v is not None
        for s in CL + [None]:
            if isinstance(t, tuple) and s is not None:
                yield 'cl', (t, [s])
                yield 'cl', (t, [s, rng.choice(CL)])
            yield 'cl', (t, s), s is not None
    for _ in range(n):
        t = rng.choice(TYPES)
        yield 'item', (t, rv(rng, t))
        yield 'item', (t, bad(rng, t))
        yield 'clgood', (t, [rv(rng, t) for _ in range(rng.randint(1, 3))] if isinstance(t, tuple) else rv(rng, t))
        items = rdesc(rng)
        yield 'yaml', (items, raw_config(rng, items, rng.choice([0, 0, .3])))
        if rng.random() < .3:
            r = raw_config(rng, items)
            for i in items:
                if '/' in i[0]:
                    r[i[0].rsplit('/', 1)[0]] = rng.choice([1, 's', [], False, 0, '', ['x']])
            yield 'yaml', (items, r)
        yield 'args', (items, {i[0]: [rng.choice(CL) for _ in range(rng.randint(1, 2))] for i in items if rng.random() < .5})
    it = [('a', 'String', None, False), ('g/b', ('List', 'Boolean'), None, False), ('m', ('MergingDict', 'Any'), None, False)]
    for raw in ([], 'x', 1, None, 0, False, '', [{}], ()):
        yield 'yaml', (it, raw)
    for c in (None, b'', b'# c\n', b'{}', b'[]', b'a', b'1: 2', b'a: b', b'a: 1', b'g: x', b'g: {b: [true]}', b'g: {b: [x]}', b'\xff\xfe\x00', b'\xff', b'a: [',
              b'a: 2001-13-45', b'm: {1: 2}', b'm: {a: {b: !!x 1}}', b'{[a]: 1}', b'a: !!int x', b'%', b'\x00', b'{null: 1}', b'true: 1', b'g:\n', b'm:\n', b'--- 1\n--- 2', b'a: !!python/object:os.system x'):
        yield 'file', (c, it)
