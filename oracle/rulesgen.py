"""Generators and reference semantics for rules dicts (spec terms only)."""
KEYS = ['foo', 'bar', 'baz']
OSES = ['ubuntu', 'debian', 'osx']
VERS = ['lucid', 'precise', 'any_version']
INSTS = ['apt', 'pip', 'default_installer']
DEFS = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew'}


def rnd_rule(rng, i=[0]):
    i[0] = (i[0] + 1) % 7
    r = {'packages': [rng.choice(['a', 'b', 'c', 'p%d' % i[0]]) for _ in range(rng.randint(0, 2))]}
    if rng.random() < .3:
        r['depends'] = [rng.choice(KEYS) for _ in range(rng.randint(1, 2))]
    if rng.random() < .2:
        r[rng.choice(['opts', 'x'])] = rng.choice([1, 'v', None, ['q'], {'k': 'v'}])
    return r


def rnd_installer_dict(rng, default=None, no_default=False, pool=None):
    pool = list(pool or (['apt', 'pip', 'homebrew', 'gem'] + ([] if no_default else ['default_installer'])))
    n = rng.choice([0, 1, 1, 1, 2, 2, 3])
    names = rng.sample(pool, min(n, len(pool)))
    if default and 'default_installer' in names and default in names:
        names.remove(rng.choice(['default_installer', default]))
    return {n: rnd_rule(rng) for n in names}


def rnd_version_dict(rng, default, no_default=False):
    vs = rng.sample(VERS + ['trusty'], rng.choice([0, 1, 1, 2, 2, 3]))
    return {v: rnd_installer_dict(rng, default, no_default) for v in vs}


def rnd_os_dict(rng, defs, any_os=.5, oses=None):
    os_ = rng.sample(oses or (OSES + ['windows']), rng.choice([0, 1, 1, 2, 2, 3]))
    d = {}
    for o in os_:
        d[o] = rnd_version_dict(rng, defs.get(o), no_default=False)
    if rng.random() < any_os:
        items = list(d.items())
        items.insert(rng.randint(0, len(items)),
                     ('any_os', {'any_version': rnd_installer_dict(rng, None, True)}))
        d = dict(items)
    return d


def rnd_rules(rng, defs, keys=KEYS):
    return {k: rnd_os_dict(rng, defs) for k in rng.sample(keys, rng.randint(0, len(keys)))}


def lookup_ref(rules, key, os_, ver, default):
    """-> dict installer -> rule, or None when a default rule has no name."""
    od = rules.get(key, {})
    vd = od.get(os_, {})
    levels = [vd.get(ver, {}), vd.get('any_version', {}),
              od.get('any_os', {}).get('any_version', {})]
    out = {}
    for lev in levels:
        for inst, rule in lev.items():
            if inst == 'default_installer':
                if not default:
                    return None
                inst = default
            if inst not in out:
                out[inst] = rule
    return out


def has_ref(od, os_, ver):
    if 'any_os' in od:
        return True
    vd = od.get(os_, {})
    return ver in vd or 'any_version' in vd


def expand_def(d):
    if d is None:
        d = []
    if isinstance(d, str):
        d = [d]
    if isinstance(d, list):
        d = {'packages': d}
    if not isinstance(d, dict):
        raise ValueError
    r = {}
    for k, v in d.items():
        if k in ('packages', 'depends'):
            if v is None:
                v = []
            elif isinstance(v, str):
                v = [v]
        if k == 'depends' and v == []:
            continue
        r[k] = v
    return r


def expand_inst(d):
    if d is None or isinstance(d, (str, list)):
        d = {'default_installer': d}
    if not isinstance(d, dict):
        raise ValueError
    return {k: expand_def(v) for k, v in d.items()}


def expand_ver(os_, d):
    if d is None or isinstance(d, (str, list)):
        d = {'any_version': d}
    if not isinstance(d, dict):
        raise ValueError
    if os_ == 'any_os':
        if 'any_version' in d:
            if len(d) != 1:
                raise ValueError
        else:
            d = {'any_version': d}
    return {k: expand_inst(v) for k, v in d.items()}


def expand_os(d):
    if not isinstance(d, dict):
        raise ValueError
    return {k: expand_ver(k, v) for k, v in d.items()}


def expand_ref(d):
    if d is None:
        d = {}
    if not isinstance(d, dict):
        raise ValueError
    return {k: expand_os(v) for k, v in d.items()}


def ident_ok(s, allow=()):
    if not isinstance(s, str):
        return False
    kw = {'any_os', 'any_version', 'default_installer', 'unset_installers', 'any_key'}
    if s in kw:
        return s in allow
    if s == 'mountain lion':
        return True
    return len(s) > 0 and all(c.isalnum() or c in '_.\u2019+-' for c in s)


def rule_ok(r):
    if not isinstance(r, dict):
        return False
    for k, v in r.items():
        if not isinstance(k, str):
            return False
        if k == 'packages' and not isinstance(v, list):
            return False
        if k == 'depends' and not (isinstance(v, list) and all(ident_ok(x) for x in v)):
            return False
    return True


def inst_ok(d, allow):
    return isinstance(d, dict) and all(
        ident_ok(k, ['default_installer']) and (allow or k != 'default_installer') and rule_ok(v)
        for k, v in d.items())


def ver_ok(d, allow):
    return isinstance(d, dict) and all(
        ident_ok(k, ['any_version']) and inst_ok(v, allow) for k, v in d.items())


def os_ok(d, allow):
    return isinstance(d, dict) and all(
        ident_ok(k, ['any_os']) and ver_ok(v, allow and k != 'any_os') for k, v in d.items())


def rules_ok(d, allow):
    return isinstance(d, dict) and all(ident_ok(k) and os_ok(v, allow) for k, v in d.items())
