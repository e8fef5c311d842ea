import os, tempfile
from common import *
RULE = ('directories of random visible/hidden/other files with valid, malformed and syntactically invalid descriptions; '
        'description lists with every kind of malformed element')
M = 'xylem.sources.impl:'


def ok_list(x):
    return isinstance(x, (list,)) and all(isinstance(d, dict) and len(d) == 1 and isinstance(list(d)[0], str) for d in x)


def c_verify(inp):
    f = need(M + 'verify_source_description_list')
    i0 = dc(inp)
    g = outcome(f, inp)
    if not same(inp, i0):
        return fail('modified')
    if isinstance(inp, (dict, str)) and len(inp) == 0:
        return None             # an empty non-list iterates over nothing: left open
    if ok_list(inp):
        if g[0] == 'exc':
            return fail('rejected %r: %s', inp, exc_name(g))
    elif g[0] == 'ok':
        return fail('accepted %r', inp)
    elif not isinstance(g[1], ValueError):
        return fail('%r raised %s', inp, exc_name(g))


def c_descr(inp):
    f = need(M + 'verify_source_description')
    g = outcome(f, inp)
    if ok_list([inp]) != (g[0] == 'ok') or (g[0] == 'exc' and not isinstance(g[1], ValueError)):
        return fail('%r: %r', inp, g)


def c_parse(inp):
    import yaml
    text, name = inp
    f = need(M + 'parse_source_descriptions')
    try:
        v = ('ok', yaml.safe_load(text))
    except yaml.YAMLError:
        v = ('yaml', None)
    g = outcome(f, text, name)
    if v[0] == 'yaml':
        if g != ('ok', (name, [])):
            return fail('invalid YAML gave %r', g)
    elif isinstance(v[1], (dict, str)) and not v[1]:
        return None
    elif ok_list(v[1]):
        if g[0] == 'exc' or not same(list(g[1]), [name, v[1]]):
            return fail('gave %r, expected %r', g[1], (name, v[1]))
    elif g[0] == 'ok' or not isinstance(g[1], ValueError):
        return fail('malformed list %r gave %r', v[1], g)


def c_dir(inp):
    """inp: list of (file name, text or None for a directory), in creation order"""
    import yaml
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_WORK'), suffix=inp[0])
    if inp[0].startswith('/'):
        d = d + '/x.yaml'
    os.makedirs(d, exist_ok=True)
    for n, t in inp[1]:
        p = os.path.join(d, n)
        if t is None:
            os.mkdir(p)
        else:
            with open(p, 'w', encoding='utf-8') as f:
                f.write(t)
    want, bad = [], False
    for n in sorted(n for n, t in inp[1] if t is not None and n.endswith('.yaml') and not n.startswith('.')):
        t = dict(inp[1])[n]
        try:
            v = yaml.safe_load(t)
        except yaml.YAMLError:
            v = []
        if not ok_list(v):
            bad = True
            break
        want.append((os.path.join(d, n), v))
    lm = need('xylem.sources.impl')
    real = os.listdir
    outs = []
    for order in ('real', 'reverse', 'shuffled'):
        def fake(p, order=order):
            r = sorted(real(p))
            return real(p) if order == 'real' else (r[::-1] if order == 'reverse' else r[1::2] + r[::2])
        os.listdir = fake
        try:
            g = outcome(lambda: [(a, b) for a, b in need(M + 'load_sources_from_path')(d)])
        finally:
            os.listdir = real
        if bad:
            if g[0] == 'ok' or not isinstance(g[1], ValueError):
                return fail('malformed list accepted: %r', g)
        elif g[0] == 'exc':
            return fail('raised %s', exc_name(g))
        elif not same(g[1], want):
            return fail('got %r, expected %r', g[1], want)
    gs = need(M + 'get_source_descriptions')
    g = outcome(lambda: list(gs(d)))
    if not bad and (g[0] == 'exc' or not same([tuple(x) for x in g[1]], want)):
        return fail('get_source_descriptions gave %r, expected %r', g, want)
    if gs(os.path.join(d, 'missing')) is not None:
        return fail('descriptions from a missing directory')


class FakeSpec(object):
    version = 1

    def __init__(self, name):
        self.name = name

    def unique_id(self, a):
        return repr(a)

    def verify_arguments(self, a):
        if a == 'badarg':
            raise ValueError('bad arguments')


def c_db(inp):
    """files of descriptions -> database sources"""
    specs, files = inp
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_WORK'))
    import yaml
    for n, ds in files:
        with open(os.path.join(d, n), 'w') as f:
            yaml.safe_dump(ds, f)
    SC = need(M + 'SourcesContext')
    Unk = need(M + 'UnknownSpecError')
    DB = need('xylem.sources.database:RulesDatabase')
    sp = [FakeSpec(s) for s in specs]
    sc = SC(Rec(sources_dir=d, cache_dir=d + '/c', disabled_plugins=Rec(spec=[])), sp)
    want = []
    for n, ds in sorted(files):
        for e in ds:
            (k, a), = e.items()
            want.append((k, a, os.path.join(d, n)))
    for s in ('nospec', ''):
        g = outcome(sc.get_spec, s)
        if g[0] == 'ok' or not isinstance(g[1], Unk):
            return fail('unknown spec: %r', g)
    g = outcome(DB, sc)
    unknown = [w for w in want if w[0] not in specs]
    ids = [repr(w[1]) for w in want]
    badarg = any(w[1] == 'badarg' for w in want)
    if unknown or badarg or len(set(ids)) != len(ids):
        if g[0] == 'ok':
            return fail('accepted unknown/duplicate/bad sources %r', want)
        if unknown and not badarg and not isinstance(g[1], Unk):
            return fail('raised %s', exc_name(g))
        return None
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    got = [(s.spec.name, s.arguments, s.origin) for s in g[1].sources]
    if not same(got, want):
        return fail('sources %r, expected %r', got, want)
    if any(not any(s.spec is x for x in sp) for s in g[1].sources):
        return fail('source with a foreign spec object')


CASES = dict(verify=c_verify, descr=c_descr, parse=c_parse, dir=c_dir, db=c_db)
ELS = [{'rules': 'u'}, {'rules': None}, {'rules': {'a': 1}}, {'x': []}, {}, {'a': 1, 'b': 2}, {1: 'u'}, {None: 1}, None, 'rules', 1, [], ['rules'], {True: 1}, {'': 'u'}]


def gen(rng, tier):
    for e in ELS:
        yield 'descr', e
        yield 'verify', e
        yield 'verify', [e]
        for f in ELS:
            yield 'verify', [e, f]
            yield 'verify', [{'rules': 'a'}, {'x': 'b'}, e, f]
    for v in ([], None, 1, 2.5, True, 'x', 'rules', {'rules': 'u'}, {}, '', b'x'):
        yield 'verify', v
    texts = ['- rules: a\n- rules: b\n', '[]', '- rules: http://é\n', '- rules: [', ': :', '- rules: a\n  x: b\n', 'rules: a', '', '- 1', 'null', '- {}',
             '- x: {a: [1, 2]}\n- rules: c\n', '\t- a', '- rules: a\n- foo\n', '!!python/object:x.y {}', '- !foo x', '[[]]', '- rules: "a: b"', '&a [*a]x', '@', '- rules: x\n--- \n- rules: y', '- ? [a]\n  : b']
    for t in texts:
        for n in ('<string>', 'a.yaml'):
            yield 'parse', (t, n)
    names = ['b.yaml', 'a.yaml', '10.yaml', '9.yaml', 'Z.yaml', '.hidden.yaml', 'x.yml', 'README', 'a.yaml~', '.yaml', 'c.yaml.bak', 'é.yaml', 'aa.yaml', '_.yaml', 'yaml']
    ok = [texts[0], texts[1], texts[2], texts[3], texts[11], texts[4]]
    for suffix in ('', '.d', '/'):
        yield 'dir', (suffix, [(n, '- rules: %d\n' % i) for i, n in enumerate(names)] + [('dir.yaml', None), ('d', None)])
    yield 'dir', ('', [])
    for t in texts:
        yield 'dir', ('', [('b.yaml', t), ('a.yaml', texts[0])])
        yield 'dir', ('', [('.b.yaml', t), ('c.txt', t), ('a.yaml', texts[0])])
    n = 150 if tier == 'quick' else 2000
    for i in range(n):
        fs = []
        for nm in rng.sample(names, rng.randint(0, 7)):
            fs.append((nm, rng.choice(ok) if rng.random() < .95 else rng.choice(texts)))
        if rng.random() < .3:
            fs.append(('zdir.yaml', None))
        yield 'dir', ('', fs)
        u = [0]

        def el():
            u[0] += 1
            return {rng.choice(['rules', 'rules', 'other'] + (['nope'] if rng.random() < .1 else [])):
                    ('u%d' % u[0]) if rng.random() < .9 else rng.choice(['dup', 'badarg', {'k': 1}])}
        yield 'db', (['rules', 'other'], [(nm, [el() for _ in range(rng.randint(0, 3))]) for nm in rng.sample(['a.yaml', 'b.yaml', '10.yaml', '9.yaml'], rng.randint(0, 4))])
