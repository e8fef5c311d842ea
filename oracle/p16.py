import argparse
import itertools
import os
from common import *
RULE = 'all combinations of explicit/unset directories, configuration directory, user sources; override texts over blanks, ampersands and colons (all words of length <= 5 over 5 symbols); option/environment combinations'
EXHAUSTIVE = 'override texts of length <= 5 over {a, blank, colon, ampersand, comma}'


def ref_override(s):
    feats = None
    head = s
    if '&' in s:
        i = s.index('&')
        head, f = s[:i], s[i + 1:].strip()
        feats = [x.strip() for x in f.split(',')] if f else []
    if ':' in head:
        i = head.index(':')
        return head[:i].strip(), head[i + 1:].strip(), feats
    return head.strip(), None, feats


def c_override(s):
    f = need('xylem.config:parse_os_override')
    g = outcome(f, s)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    if tuple(g[1]) != ref_override(s):
        return fail('%r split into %r, expected %r', s, g[1], ref_override(s))


def c_process(inp):
    cache, sources, cdir, user, prefix, override, features = inp
    pc = need('xylem.config:process_config')
    gd = need('xylem.config:get_default_config')
    cfg = gd()
    CDict = type(cfg)
    cfg['os_options'] = CDict(cfg['os_options'])
    cfg['cache_dir'] = cache
    cfg['sources_dir'] = sources
    cfg['user_sources'] = user
    cfg['os_override'] = override
    cfg['os_options']['features'] = features
    home = os.path.expanduser('~')
    other = {k: v for k, v in cfg.items() if k not in ('cache_dir', 'sources_dir', 'os_override', 'os_options')}
    other = dc(dict(other))
    args = argparse.Namespace(config_dir=cdir, prefix=prefix)
    g = outcome(pc, cfg, args)
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    u = os.path.join(home, '.config', 'xylem')
    wc = cache if cache is not None else os.path.join(cdir, 'cache') if cdir else os.path.join(u, 'cache') if user else os.path.join(prefix, 'var/cache', 'xylem')
    ws = sources if sources is not None else os.path.join(cdir, 'sources.d') if cdir else os.path.join(u, 'sources.d') if user else os.path.join(prefix, 'etc', 'xylem', 'sources.d')
    if cfg['cache_dir'] != wc:
        return fail('cache_dir %r, expected %r', cfg['cache_dir'], wc)
    if cfg['sources_dir'] != ws:
        return fail('sources_dir %r, expected %r', cfg['sources_dir'], ws)
    wo, wf = None, features
    if override is not None:
        n, v, f = ref_override(override)
        wo = (n, v)
        if f is not None:
            wf = f
    if cfg['os_override'] != wo:
        return fail('os_override %r, expected %r', cfg['os_override'], wo)
    if cfg['os_options']['features'] != wf:
        return fail('features %r, expected %r', cfg['os_options']['features'], wf)
    if not same(dict((k, cfg[k]) for k in other), other):
        return fail('other entries changed')
    if args.config_dir != cdir or args.prefix != prefix:
        return fail('arguments changed')


def c_global(inp):
    tool, cdir, prefix, ecdir, eprefix = inp
    f = need('xylem.config_utils:handle_global_config_arguments')
    env = {tool.upper() + '_DIR': ecdir, tool.upper() + '_PREFIX': eprefix}
    saved = {k: os.environ.get(k) for k in env}
    try:
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        args = argparse.Namespace(config_dir=cdir, prefix=prefix, other=3)
        g = outcome(f, args, tool)
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    if g[0] == 'exc':
        return fail('raised %s', exc_name(g))
    x = lambda p: None if p is None else os.path.abspath(os.path.expanduser(p))
    wd = x(cdir if cdir is not None else ecdir)
    wp = x(prefix if prefix is not None else eprefix if eprefix is not None else '/')
    if args.config_dir != wd:
        return fail('config_dir %r, expected %r', args.config_dir, wd)
    if args.prefix != wp:
        return fail('prefix %r, expected %r', args.prefix, wp)
    if args.other != 3:
        return fail('other argument changed')


def c_whole(inp):
    """command line -> get_config() through handle_config_arguments"""
    argv, env, want = inp
    C = need('xylem.config:add_global_config_arguments')
    conf = need('xylem.config:')
    w = os.environ['VERIF_WORK']
    sub = lambda s: s.replace('$W', w)
    saved = {k: os.environ.get(k) for k in ('XYLEM_DIR', 'XYLEM_PREFIX')}
    old = conf.get_config()
    try:
        for k, v in env.items():
            os.environ[k] = sub(v)
        p = argparse.ArgumentParser()
        conf.add_global_config_arguments(p)
        conf.add_config_arguments(p)
        ns = p.parse_args([sub(a) for a in argv])
        conf.handle_global_config_arguments(ns)
        g = outcome(conf.handle_config_arguments, ns)
        if g[0] == 'exc':
            return fail('raised %s', exc_name(g))
        c = conf.get_config()
        for k, v in want.items():
            got = c['os_options']['features'] if k == 'features' else c[k]
            v = sub(v) if isinstance(v, str) else v
            if got != v:
                return fail('%s is %r, expected %r', k, got, v)
    finally:
        conf.set_config(old)
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


CASES = dict(override=c_override, process=c_process, glob=c_global, whole=c_whole)


def gen(rng, tier):
    for L in range(0, 6 if tier == 'quick' else 7):
        for w in itertools.product('a :&,', repeat=L):
            yield 'override', ''.join(w)
    for s in ('ubuntu:lucid', 'ubuntu : 10.04 & a , b', 'osx', '\tosx\n:\v1\u2003', 'a:b:c&d&e:f,g'):
        yield 'override', s
    ov = [None, 'a', 'a:b', 'a&', 'a:b& x , y', '&', ':', 'a:b&c:d,e&f']
    for cache in (None, '/c', '', 'rel'):
        for sources in (None, '/s', ''):
            for cdir in (None, '', '/cd'):
                for user in (None, False, True):
                    for prefix in ('/', '/p/q'):
                        o = rng.choice(ov)
                        yield 'process', (cache, sources, cdir, user, prefix, o, rng.choice([None, [], ['f']]))
    for o in ov:
        for f in (None, [], ['f']):
            yield 'process', (None, None, None, False, '/', o, f)
    for tool in ('xylem', 'foo', 'p16x'):
        for a in itertools.product((None, '/a/b', 'r/../q', '~/z', ''), (None, '/p', '~', 'x', ''), (None, '/e', 'y', ''), (None, '/f', '~/g')):
            yield 'glob', (tool,) + a
    d = lambda r: {'cache_dir': r + '/cache', 'sources_dir': r + '/sources.d'}
    s = lambda r: {'cache_dir': r + '/var/cache/xylem', 'sources_dir': r + '/etc/xylem/sources.d'}
    yield 'whole', ([], {'XYLEM_PREFIX': '$W/p'}, s('$W/p'))
    yield 'whole', (['--prefix', '$W/q'], {'XYLEM_PREFIX': '$W/p'}, s('$W/q'))
    yield 'whole', (['--prefix', '$W/q', '--xylem-dir', '$W/d'], {}, d('$W/d'))
    yield 'whole', (['--prefix', '$W/q'], {'XYLEM_DIR': '$W/e'}, d('$W/e'))
    yield 'whole', (['--xylem-dir', '$W/d'], {'XYLEM_DIR': '$W/e'}, d('$W/d'))
    yield 'whole', (['--prefix', '$W/q', '--user-sources', 'yes'], {}, d('$W/.config/xylem'))
    yield 'whole', (['--prefix', '$W/q', '--user-sources', 'no'], {}, s('$W/q'))
    yield 'whole', (['--prefix', '$W/q', '--user-sources', 'yes', '--cache-dir', '$W/cc'], {}, {'cache_dir': '$W/cc', 'sources_dir': '$W/.config/xylem/sources.d'})
    yield 'whole', (['--xylem-dir', '$W/d', '--sources-dir', '$W/../W/ss/.'], {}, {'cache_dir': '$W/d/cache'})
    yield 'whole', (['--prefix', '$W/q', '--os', 'ubuntu: lucid &x, y', '--os-features', 'z'], {}, {'os_override': ('ubuntu', 'lucid'), 'features': ['x', 'y']})
    yield 'whole', (['--prefix', '$W/q', '--os', 'ubuntu', '--os-features', 'z,w'], {}, {'os_override': ('ubuntu', None), 'features': ['z', 'w']})
