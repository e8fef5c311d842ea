from common import *
from rulesgen import *
RULE = ('random shorthand rules documents over 5 grammar levels, valid and with one ill-typed '
        'node; exhaustive over one-node documents from a pool of 16 values per level')
M = 'xylem.specs.plugins.rules:'
BAD = [1, 2.5, True, 'xx', [], ['a'], ['a', 'b'], None, {}, {'packages': 'x'}, {'packages': None}, '',
       {'depends': []}, {'depends': 'x', 'packages': ['p']}, {'foo': None}, {'any_version': 'x'}, 0, False, [1], b'x']


def _check(fn, ref, inp, label):
    SPE = need('xylem.specs.plugins.rules:SpecParsingError')
    try:
        exp = ('ok', ref(dc(inp)))
    except ValueError:
        exp = ('exc', None)
    got = outcome(fn, dc(inp))
    if exp[0] == 'exc':
        if got[0] == 'ok':
            return fail('%s accepted a document outside the grammar: %r', label, got[1])
        if not isinstance(got[1], (ValueError, SPE)) and not spe_site(got[1]):
            return fail('%s raised %s', label, exc_name(got))
        return None
    if got[0] == 'exc':
        return fail('%s rejected a valid document: %s', label, exc_name(got))
    if not same(got[1], exp[1]):
        return fail('%s gave %r, the explicit form is %r', label, got[1], exp[1])
    again = outcome(fn, dc(got[1]))
    if again[0] != 'ok' or not same(again[1], exp[1]):
        return fail('%s is not idempotent: %r', label, again[1])


def spe_site(e):
    """The call site of the known finding: SpecParsingError.__init__ calls ValueError.__init__ on
    an object that is no ValueError.  It is reported by the case spec_parsing_error."""
    SPE = need('xylem.specs.plugins.rules:SpecParsingError')
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame
    return type(e) is TypeError and f.f_code.co_name == '__init__' and isinstance(f.f_locals.get('self'), SPE)


def c_spe(inp):
    SPE = need('xylem.specs.plugins.rules:SpecParsingError')
    got = outcome(SPE, *inp)
    if got[0] == 'exc':
        return fail('the rules-parsing error cannot be constructed: %s', exc_name(got))
    if inp[0] not in str(got[1]):
        return fail('the rules-parsing error lost its message: %s', got[1])


def c_rules(inp):
    return _check(need(M + 'expand_rules'), expand_ref, inp, 'expand_rules')


def c_spec(inp):
    """The same through RulesSpec.load_data from YAML text."""
    import yaml
    R = need(M + 'RulesSpec')
    m = need('xylem.specs.plugins.rules')
    if not hasattr(m, 'load_url'):
        raise Skip('load_url')
    text = yaml.safe_dump(inp, allow_unicode=True, sort_keys=False)
    inp = yaml.safe_load(text)
    old = m.load_url
    m.load_url = lambda *a, **k: text
    try:
        return _check(lambda d: R().load_data('http://x') if d == inp else need(M + 'expand_rules')(d),
                      expand_ref, inp, 'RulesSpec.load_data')
    finally:
        m.load_url = old


def c_os(inp):
    return _check(need(M + 'expand_os_definition'), expand_os, inp, 'expand_os_definition')


def c_ver(inp):
    f = need(M + 'expand_os_version_definition')
    return _check(lambda d: f(inp[0], d), lambda d: expand_ver(inp[0], d), inp[1], 'expand_os_version_definition')


def c_inst(inp):
    return _check(need(M + 'expand_installer_definition'), expand_inst, inp, 'expand_installer_definition')


def c_def(inp):
    return _check(need(M + 'expand_definition'), expand_def, inp, 'expand_definition')


CASES = dict(spec_parsing_error=c_spe, rules=c_rules, spec=c_spec, os=c_os, ver=c_ver, inst=c_inst, defn=c_def)


def rdef(r):
    k = r.random()
    if k < .15:
        return None
    if k < .35:
        return r.choice(['a', 'libfoo', ''])
    if k < .55:
        return [r.choice(['a', 'b']) for _ in range(r.randint(0, 3))]
    d = {}
    if r.random() < .8:
        d['packages'] = r.choice([None, 'x', [], ['x'], ['x', 'y'], 3, {'n': 1}])
    if r.random() < .6:
        d['depends'] = r.choice([None, 'x', [], ['x'], ['x', 'y'], '', 0, {}])
    if r.random() < .4:
        d[r.choice(['opt', 'any_version', 'default_installer', 'any_os', 1])] = r.choice([None, 'v', ['w'], []])
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def rinst(r):
    k = r.random()
    if k < .3:
        return r.choice([None, 'a', '', [], ['a'], ['a', 'b']])
    return {n: rdef(r) for n in r.sample(['apt', 'pip', 'default_installer', 'packages', 'depends', 'any_version'], r.randint(0, 3))}


def rver(r, os_):
    k = r.random()
    if k < .3:
        return r.choice([None, 'a', '', [], ['a'], ['a', 'b']])
    if os_ == 'any_os':
        if k < .6:
            return {'any_version': rinst(r)}
        return {n: rdef(r) for n in r.sample(['apt', 'pip', 'x'], r.randint(0, 3))}
    return {n: rinst(r) for n in r.sample(['any_version', 'lucid', 'precise', 'default_installer', 'packages'], r.randint(0, 3))}


def ros(r):
    return {n: rver(r, n) for n in r.sample(['any_os', 'ubuntu', 'debian', 'any_version'], r.randint(0, 3))}


def corrupt(r, d):
    """replace one random dict value by an ill-typed one"""
    nodes = []

    def walk(x):
        if isinstance(x, dict):
            for k in x:
                nodes.append((x, k))
                walk(x[k])
    walk(d)
    if nodes:
        x, k = r.choice(nodes)
        x[k] = r.choice([1, 2.5, True, 0, {'any_version': 'x', 'lucid': 'y'}, 'zz', [None], b'z', None])
    return d


def gen(rng, tier):
    yield 'spec_parsing_error', ('message', 'snippet')
    for b in BAD:
        yield 'defn', b
        yield 'inst', b
        yield 'os', b
        yield 'rules', b
        yield 'inst', {'apt': b}
        for o in ('any_os', 'ubuntu'):
            yield 'ver', (o, b)
            yield 'ver', (o, {'any_version': b})
            yield 'ver', (o, {'lucid': b})
            yield 'ver', (o, {'lucid': b, 'any_version': b})
            yield 'os', {o: b}
            yield 'rules', {'k': {o: b}}
            yield 'rules', {'k': {o: {'any_version': {'apt': b}}}}
            yield 'rules', {'k': {'debian': ['x'], o: b}}
            yield 'spec', {'k': {o: b}}
        yield 'rules', {'k': b}
        yield 'rules', {'j': {'ubuntu': 'x'}, 'k': b}
    n = 1500 if tier == 'quick' else 20000
    for i in range(n):
        r = rng
        yield 'defn', rdef(r)
        yield 'inst', rinst(r)
        o = r.choice(['any_os', 'ubuntu'])
        yield 'ver', (o, rver(r, o))
        d = {k: ros(r) for k in r.sample(KEYS, r.randint(0, 3))}
        yield 'rules', d
        yield 'rules', corrupt(r, dc(d))
        if i % 10 == 0:
            yield 'spec', d
