import argparse
import itertools
from cfg import *
RULE = 'random sequences (1-6) of additions over a small pool of names, groups, arguments and flags, so that most conflict; checked step by step; non-trivial: at least two additions'


def ref_item(a):
    name, cl, arg, mv = a
    exposed = cl if cl is not None else (arg is not None or mv is not None)
    if arg:
        n = arg[2:] if arg.startswith('--') else arg
    elif exposed:
        n = dash(name)
    else:
        n = arg
    return bool(exposed), n


def conflict(a, accepted):
    name = a[0]
    names = [x[0] for x in accepted]
    groups = {n.rsplit('/', 1)[0] for n in names if '/' in n}
    if name in names or name in groups:
        return True
    if '/' in name and name.rsplit('/', 1)[0] in names:
        return True
    e, n = ref_item(a)
    if e and n in [ref_item(x)[1] for x in accepted if ref_item(x)[0]]:
        return True
    return False


def c_add(inp):
    CD = need('xylem.config_utils:ConfigDescription')
    CDE = need('xylem.config_utils:ConfigDescriptionError')
    S = need('xylem.config_utils:String')
    D = CD('x.yaml')
    acc = []
    for a in inp:
        name, cl, arg, mv = a
        g = outcome(D.add, name, type=S, command_line=cl, command_line_argument=arg, command_line_metavar=mv)
        c = conflict(a, acc)
        if g[0] == 'exc' and (not c or not isinstance(g[1], CDE)):
            return fail('add%r raised %s', a, exc_name(g))
        if g[0] == 'ok' and c:
            return fail('add%r accepted although it conflicts with %r', a, acc)
        if g[0] == 'exc':
            return None   # only accepted sequences are specified further
        acc.append(a)
        m = state(D, acc)
        if m:
            return m
    # all configurations have the same keys
    want = {}
    for a in acc:
        put(want, a[0], None)
    fd, fy, fa = need('xylem.config_utils:config_from_defaults'), need('xylem.config_utils:config_from_parsed_yaml'), need('xylem.config_utils:config_from_args')
    p = argparse.ArgumentParser()
    dests = [ref_item(a)[1].replace('-', '_').replace('/', '_') for a in acc if ref_item(a)[0]]
    if len(set(dests)) < len(dests) or 'help' in dests or 'h' in dests or '' in dests:
        return None
    D.add_arguments(p)
    confs = [fd(D), fy({}, D), fa(p.parse_args([]), D)]
    for c in confs:
        if {k: (set(v) if isinstance(v, dict) else None) for k, v in c.items()} != \
                {k: (set(v) if isinstance(v, dict) else None) for k, v in want.items()}:
            return fail('keys %r, expected %r', c, want)
    for i, a in enumerate(acc):
        e, n = ref_item(a)
        if e:
            c = fa(p.parse_args(['--' + n + '=v%d' % i]), D)
            for b in acc:
                if get(c, b[0]) != ('v%d' % i if b is a else None):
                    return fail('--%s sets %s to %r', n, b[0], get(c, b[0]))


def state(D, acc):
    if [i.name for i in D.itemlist] != [a[0] for a in acc]:
        return fail('itemlist %r', [i.name for i in D.itemlist])
    if set(D.items) != {a[0] for a in acc}:
        return fail('items %r', D.items)
    args = {}
    groups = {}
    for a, it in zip(acc, D.itemlist):
        if D.items[a[0]] is not it:
            return fail('item %s', a[0])
        e, n = ref_item(a)
        if bool(it.command_line) != e:
            return fail('%r exposed: %r', a, it.command_line)
        if e and it.command_line_argument != n:
            return fail('%r has argument %r', a, it.command_line_argument)
        if e:
            args[n] = it
        if '/' in a[0]:
            g, s = a[0].rsplit('/', 1)
            groups.setdefault(g, {})[s] = it
    if set(D.groups) != set(groups) or any(set(D.groups[g]) != set(groups[g]) or any(D.groups[g][s] is not groups[g][s] for s in groups[g]) for g in groups):
        return fail('groups %r', D.groups)
    if set(D.command_line_arguments) != set(args) or any(D.command_line_arguments[n] is not args[n] for n in args):
        return fail('arguments %r', D.command_line_arguments)


CASES = dict(add=c_add)


def gen(rng, tier):
    names = ['a', 'b', 'a/b', 'a/c', 'g/a', 'g/b', 'g/h/a', 'g/h', 'g', 'a_b', 'a-b', 'x_y/z_w', 'x_y']
    cl = [None, True, False]
    args = [None, None, None, 'a', '--a', 'a-b', '--q', 'long-one', '']
    mv = [None, None, 'M']
    for n in names:
        for c in cl:
            for a in args[2:]:
                for m in mv[1:]:
                    yield 'add', [(n, c, a, m)], False
    for p in itertools.product(names, repeat=2):
        yield 'add', [(p[0], None, None, None), (p[1], None, None, None)]
        yield 'add', [(p[0], True, None, None), (p[1], True, None, None)]
        yield 'add', [(p[0], True, None, None), (p[1], None, p[0].replace('/', '-').replace('_', '-'), None)]
    for p in itertools.permutations(names, 3):
        yield 'add', [(q, None, None, None) for q in p]
    for _ in range(2000 if tier == 'quick' else 20000):
        yield 'add', [(rng.choice(names), rng.choice(cl), rng.choice(args), rng.choice(mv)) for _ in range(rng.randint(2, 6))]
        k = rng.sample(names, rng.randint(2, 6))
        yield 'add', [(n, rng.choice(cl), rng.choice([None, None, 'u%d' % i]), rng.choice(mv)) for i, n in enumerate(k)]
