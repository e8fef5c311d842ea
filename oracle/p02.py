from common import *
from rulesgen import *
RULE = ('well-formed rules with zero or one mutation at any level; identifiers exhaustive over all '
        'strings of length <= 2 from a 24-character alphabet and all single code points below 0x3000')
M = 'xylem.sources.rules_dict:'
KW = ['any_os', 'any_version', 'default_installer', 'unset_installers', 'any_key', 'mountain lion', 'Any_os',
      'mountain  lion', 'any_oss', 'default_installer2']


def _verdict(f, inp, args, ok, label):
    d = dc(inp)
    got = outcome(f, d, *args)
    if not same(d, inp):
        return fail('%s modified its input: %r', label, d)
    if ok:
        if got[0] == 'exc':
            return fail('%s rejected well-formed input: %s', label, exc_name(got))
    else:
        if got[0] == 'ok':
            return fail('%s accepted ill-formed input', label)
        if not isinstance(got[1], ValueError):
            return fail('%s raised %s instead of a value error', label, exc_name(got))


def c_rules(inp):
    d, allow = inp
    f = need(M + 'verify_rules_dict')
    r = _verdict(f, d, () if allow is None else (allow,), rules_ok(d, allow is not False), 'verify_rules_dict')
    if r or allow is not None:
        return r
    return _verdict(lambda x: need('xylem.specs.plugins.rules:RulesSpec')().verify_data(x, 'u'), d, (),
                    rules_ok(d, True), 'RulesSpec.verify_data')


def c_os(inp):
    return _verdict(need(M + 'verify_os_dict'), inp[0], (inp[1],), os_ok(inp[0], inp[1]), 'verify_os_dict')


def c_ver(inp):
    return _verdict(need(M + 'verify_version_dict'), inp[0], (inp[1],), ver_ok(inp[0], inp[1]), 'verify_version_dict')


def c_inst(inp):
    return _verdict(need(M + 'verify_installer_dict'), inp[0], (inp[1],), inst_ok(inp[0], inp[1]), 'verify_installer_dict')


def c_rule(inp):
    return _verdict(need(M + 'verify_installer_rule'), inp, (), rule_ok(inp), 'verify_installer_rule')


def c_ident(s):
    for fn, allow in [('verify_xylem_key', []), ('verify_os_name', ['any_os']), ('verify_os_version', ['any_version']),
                      ('verify_installer_name', ['default_installer'])]:
        r = _verdict(need(M + fn), s, (), ident_ok(s, allow), '%s(%r)' % (fn, s))
        if r:
            return r


def c_idents(pair):
    """all code points of a range as one-letter identifiers, and after a letter"""
    f = need(M + 'verify_rules_dict_identifier')
    for cp in range(*pair):
        if 0xd800 <= cp < 0xe000:
            continue
        for s in (chr(cp), 'a' + chr(cp), chr(cp) + 'a'):
            got = outcome(f, s, 'x')
            if (got[0] == 'ok') != ident_ok(s):
                return fail('identifier %r: %s', s, got)


CASES = dict(rules=c_rules, os=c_os, ver=c_ver, inst=c_inst, rule=c_rule, ident=c_ident, idents=c_idents)
BADV = [None, 1, 'x', [], ['a'], {}, {'a': 1}, True, {1: 'x'}, {'packages': 'x'}, {'packages': []}, {'depends': ['a b']},
        {'depends': ['any_os']}, {'depends': [1]}, {'depends': 'x'}, {'depends': []}, {'depends': ['a', 'mountain lion']}, b'x',
        {'packages': None}, {'packages': {}}, {'depends': None}, {'packages': ('a',)}, {'opts': 7}, {b'k': 1}, {None: 1},
        {'any_version': {'apt': {}}}, {'packages': ['any key', 1, None]}]
BADK = KW + ['a b', '', 'a\n', '\na', 1, None, b'x', True, 'a/b', 'a:b', 'é', 'a’b', ('t',), ' ', 'x', 1.5]


def gen(rng, tier):
    alpha = ['a', 'Z', '0', '_', '.', '’', '+', '-', ' ', '\n', '\t', '/', ':', '&', '$', 'é', '漢', '²', '\u00a0', '\u200b', '\x00', '!', '^', "'"]
    for a in alpha:
        yield 'ident', a
        for b in alpha:
            yield 'ident', a + b
            yield 'ident', 'x' + a + b + 'y', False
    for s in BADK + ['', 'mountain lion ', ' mountain lion', 'any_key\n']:
        yield 'ident', s
    top = 0x3000 if tier == 'quick' else 0x11000
    for b in range(0, top, 0x800):
        yield 'idents', (b, b + 0x800)
    for v in BADV:
        yield 'rule', v
        yield 'rule', {'packages': ['a'], 'x': v}
        yield 'rule', {'packages': v}
        yield 'rule', {'depends': v}
        yield 'rule', {'packages': ['p'], 'depends': v}
        for al in (True, False):
            yield 'inst', (v, al)
            yield 'inst', ({'apt': v}, al)
            yield 'inst', ({'apt': {}, 'default_installer': v}, al)
            yield 'ver', (v, al)
            yield 'ver', ({'lucid': v}, al)
            yield 'ver', ({'lucid': {'apt': v}}, al)
            yield 'ver', ({'lucid': {}, 'precise': {'pip': {}, 'default_installer': v}}, al)
            yield 'os', (v, al)
            yield 'os', ({'any_os': v}, al)
            yield 'os', ({'any_os': {'any_version': v}}, al)
            yield 'os', ({'ubuntu': {}, 'debian': {'any_version': v}}, al)
            for a2 in (None, al):
                yield 'rules', (v, a2)
                yield 'rules', ({'k': v}, a2)
                yield 'rules', ({'j': {}, 'k': {'ubuntu': v}}, a2)
                yield 'rules', ({'j': {}, 'k': {'ubuntu': {'lucid': {'apt': v}}}}, a2)
    for k in BADK:
        for al in (True, False):
            yield 'inst', ({k: {}}, al)
            yield 'inst', ({'apt': {}, k: {}}, al)
            yield 'ver', ({'lucid': {}, k: {}}, al)
            yield 'ver', ({'lucid': {'apt': {}, k: {'packages': []}}}, al)
            yield 'os', ({k: {}}, al)
            yield 'os', ({'any_os': {k: {}}}, al)
            for o in ('ubuntu', 'any_os'):
                yield 'os', ({o: {'any_version': {k: {}}}}, al)
                yield 'os', ({'x': {}, o: {'any_version': {'pip': {}}, 'lucid': {k: {}}}}, al)
                yield 'os', ({o: {'any_version': {'apt': {'depends': [k]}}}}, al)
                yield 'os', ({o: {'any_version': {'apt': {'depends': ['ok', k]}}}}, al)
                for a2 in (None, al):
                    yield 'rules', ({'k': {o: {'lucid': {k: {}}}}}, a2)
                    yield 'rules', ({'k': {o: {'lucid': {}, k: {}}}}, a2)
            for a2 in (None, al):
                yield 'rules', ({'j': {}, k: {}}, a2)
                yield 'rules', ({'j': {}, 'k': {k: {}}}, a2)
    n = 1500 if tier == 'quick' else 20000
    for i in range(n):
        d = rnd_rules(rng, {})
        yield 'rules', (d, rng.choice([True, False, None]))
        e = dc(d)
        nodes = []

        def walk(x):
            if isinstance(x, dict):
                for k in x:
                    nodes.append((x, k))
                    walk(x[k])
        walk(e)
        if nodes:
            x, k = rng.choice(nodes)
            if rng.random() < .5:
                x[k] = rng.choice(BADV)
            else:
                x[rng.choice(BADK)] = x.pop(k)
            yield 'rules', (e, rng.choice([True, False, None]))
