"""Contracts for locations, environment and OS override of the configuration (config.py, config_utils.py; P16).

Splitting a text at the first separator is an operation on strings; paths are composed by functions of os.path.
"""
from contracts.world import *
from contracts import commands     # os.path.join

CU = 'xylem.config_utils:'
CF = 'xylem.config:'
S_ = z3.StringSort
db.globals[CU + 'DEFAULT_USER_CONFIG_DIR'] = 'str'
db.globals[CF + 'DEFAULT_CACHE_DIR'] = 'str'
db.globals[CF + 'DEFAULT_SOURCES_DIR'] = 'str'
strin = z3.Function('strin', M.S, M.S, z3.BoolSort())
AMP, COL, COM = STR('&'), STR(':'), STR(',')


def has_(sep, s):
    return strin(M.V.s(sep), M.V.s(s))


head = lambda s, sep: B.uf_str('part.head', s, sep).t
tail = lambda s, sep: B.uf_str('part.tail', s, sep).t
strip = lambda s: B.uf_str('strip', s).t


def _strip_axioms():
    """Removing blanks at the ends of a text does not change what is before and after a separator but for blanks."""
    t = z3.Const('t!sa', M.V)
    s = strip(t)
    out = [z3.ForAll([t], And(strip(s) == s), patterns=[strip(s)])]
    for sep in (AMP, COL, COM):
        i = has_(sep, t)
        out += [z3.ForAll([t], has_(sep, s) == i, patterns=[has_(sep, s)]),
                z3.ForAll([t], Imp(i, strip(head(s, sep)) == strip(head(t, sep))), patterns=[head(s, sep)]),
                z3.ForAll([t], Imp(i, strip(tail(s, sep)) == strip(tail(t, sep))), patterns=[tail(s, sep)])]
    return out


M.OPAQUE['part.head'] = _strip_axioms()
join = lambda *a: join2(a)
_abs = lambda p: B.uf_str('path.abspath', B.uf_str('path.expanduser', p).t).t
up = lambda s: B.uf_str('upper', s).t


def join2(a):
    r = a[0]
    for x in a[1:]:
        r = B.uf_str('path.join2', r, x if z3.is_expr(x) else STR(x)).t
    return r


def cat(*xs):
    f = z3.Function('strcat', M.S, M.S, M.S)
    r = M.V.s(xs[0])
    for x in xs[1:]:
        r = f(r, M.V.s(x))
    return M.V.str(r)


def h_uf(name):
    def h(ex, st, args, kw, X, node):
        a = [ex.sv(st, x) for x in args]
        st = ex.need(st, And(*[M.V.is_str(x.t) for x in a]), X, 'TypeError')
        return [(st, B.uf_str(name, *[x.t for x in a]))] if st is not None else []
    return h


db.externals['os.path.abspath'] = h_uf('path.abspath')
db.externals['os.path.expanduser'] = h_uf('path.expanduser')
_env = z3.Function('rs:environment', M.V, M.V)       # a text or absent


def h_getenv(ex, st, args, kw, X, node):
    k = ex.sv(st, args[0]).t
    d = ex.sv(st, args[1] if len(args) > 1 else kw.get('default', ex.const(None)))
    v = _env(k)
    st.assume(Or(v == ABSENT, M.V.is_str(v)))
    return [(st, E.SV(Ite(v == ABSENT, d.t, v), ('str',) if d.ty == ('str',) else ('opt', ('str',))))]


db.externals['os.environ.get'] = db.externals['os.getenv'] = h_getenv

DIRS = {
    'sources_dir': (CF, ['parent'], lambda p: join(p, 'sources.d')),
    'system_config_dir': (CU, ['prefix', 'tool_name'], lambda p, t: join(p, 'etc', t)),
    'system_cache_dir': (CU, ['prefix', 'tool_name'], lambda p, t: join(p, 'var', 'cache', t)),
    'user_config_dir': (CU, ['tool_name'], lambda t: join(z3.Const('G.' + CU + 'DEFAULT_USER_CONFIG_DIR', M.V), t)),
    'user_cache_dir': (CU, ['config_dir'], lambda d: join(d, 'cache'))}


def path_of(name):
    mod, params, val = DIRS[name]

    @contract
    class fn(Contract):
        key = mod + name
        types = {p: 'str' for p in params}
        result = 'str'

        def ensures(c):
            return [('path', c.res == val(*[getattr(c.a, p) for p in params]))]
    return lambda *a: val(*a)


SRC, SYS, SYSC, USER, USERC = [path_of(n) for n in ('sources_dir', 'system_config_dir', 'system_cache_dir', 'user_config_dir', 'user_cache_dir')]


@contract
class expand(Contract):
    key = CU + 'expand_input_path'
    types = {'value': 'str?'}
    result = 'str?'

    def ensures(c):
        return [('expanded', c.res == Ite(c.a.value == NONE, NONE, _abs(c.a.value)))]


db.fields['Args'] = {'config_dir': 'str?', 'prefix': 'str?', 'no_user_config': 'bool', 'print_config': 'bool'}


@contract
class handle_global(Contract):
    key = CU + 'handle_global_config_arguments'
    types = {'args': 'Args', 'tool_name': 'str'}
    result = 'none'
    modifies = {'f.' + f: (lambda c, r: r == M.rid(c.a.args)) for f in ('config_dir', 'prefix')}

    def ensures(c):
        f = lambda H, n: H.field(c.a.args, n)
        env = lambda s: _env(cat(up(c.a.tool_name), STR(s)))
        d = Ite(f(c.pre, 'config_dir') != NONE, f(c.pre, 'config_dir'), Ite(env('_DIR') != ABSENT, env('_DIR'), NONE))
        p = Ite(f(c.pre, 'prefix') != NONE, f(c.pre, 'prefix'), Ite(env('_PREFIX') != ABSENT, env('_PREFIX'), STR('/')))
        return [('configuration directory', f(c.post, 'config_dir') == Ite(d == NONE, NONE, _abs(d))),
                ('prefix', f(c.post, 'prefix') == _abs(p))]


# ------------------------------------------------------------------ OS override
def features_of(c, t, v):
    """v is the new list of features in text t"""
    H = c.post
    s = strip(t)
    parts = lambda i: z3.Select(z3.Function('s:split:1', M.V, M.V, M.SeqS)(s, COM), i)
    n = z3.Function('n:split:1', M.V, M.V, M.I)(s, COM)
    return And(typed(H, v, 'list'), M.rid(v) >= c.alloc0, Ite(s == STR(''), H.llen(v) == 0, And(H.llen(v) == n, c.forall(1, lambda j: Imp(And(
        j >= 0, j < n), H.at(v, j) == strip(parts(j))), lambda j: [H.at(v, j)], [M.I]))))


def override(c, text, name, version, features, old):
    h = Ite(has_(AMP, text), head(text, AMP), text)
    return [('name', name == strip(Ite(has_(COL, h), head(h, COL), h))),
            ('version', version == Ite(has_(COL, h), strip(tail(h, COL)), NONE)),
            ('features', Ite(has_(AMP, text), features_of(c, tail(text, AMP), features), features == old))]


@contract
class parse_override(Contract):
    key = CF + 'parse_os_override'
    types = {'os_arg': 'str'}
    result = 'tuple[str,str?,list[str]?]'

    def ensures(c):
        return override(c, c.a.os_arg, M.V.t3a(c.res), M.V.t3b(c.res), M.V.t3c(c.res), NONE)


db.fields['ConfigDict'].update(cache_dir='str?', sources_dir='str?', user_sources='bool', os_options='ConfigDict', os_override='any',
                               features='list[str]?')


@contract
class process(Contract):
    key = CF + 'process_config'
    types = {'config': 'ConfigDict', 'args': 'Args'}
    result = 'none'

    def requires(c):
        H, d = c.pre, c.a.config
        o = cfg(H, d, 'os_options')
        return [('parsed configuration', And(*[typed(H, cfg(H, d, k), t) for k, t in (
            ('cache_dir', 'str?'), ('sources_dir', 'str?'), ('user_sources', 'bool'), ('os_override', 'str?'), ('os_options', 'ConfigDict'))])),
            ('features', And(typed(H, cfg(H, o, 'features'), 'list[str]?'), o != d)),
            ('handled arguments', M.V.is_str(H.field(c.a.args, 'prefix')))]
    modifies = {'dm': lambda c, r: Or(r == M.rid(c.a.config), And(r == M.rid(cfg(c.pre, c.a.config, 'os_options')), cfg(
        c.pre, c.a.config, 'os_override') != NONE, has_(AMP, cfg(c.pre, c.a.config, 'os_override'))))}

    def ensures(c):
        G, H, d = c.pre, c.post, c.a.config
        cd, pf = G.field(c.a.args, 'config_dir'), G.field(c.a.args, 'prefix')
        X = STR('xylem')
        us = cfg(G, d, 'user_sources') == M.vbool(True)
        old = lambda k: cfg(G, d, k)
        given = And(cd != NONE, cd != STR(''))
        o = cfg(G, d, 'os_options')
        ov = old('os_override')
        new = cfg(H, d, 'os_override')
        return [
            ('cache', cfg(H, d, 'cache_dir') == Ite(old('cache_dir') != NONE, old('cache_dir'), Ite(given, USERC(cd), Ite(
                us, USERC(USER(X)), SYSC(pf, X))))),
            ('sources', cfg(H, d, 'sources_dir') == Ite(old('sources_dir') != NONE, old('sources_dir'), Ite(given, SRC(cd), Ite(
                us, SRC(USER(X)), SRC(SYS(pf, X)))))),
            ('no override', Imp(ov == NONE, And(new == NONE, H.dmap(o) == G.dmap(o)))),
            ('override', Imp(ov != NONE, M.tup_is(new, 2)))] + [
                ('override ' + l, Imp(ov != NONE, b)) for l, b in override(c, ov, M.V.t2a(new), M.V.t2b(new), cfg(H, o, 'features'), cfg(G, o, 'features'))] + [
            ('nothing else', And(c.forall(1, lambda k: Imp(And(*[k != STR(x) for x in ('cache_dir', 'sources_dir', 'os_override')]), H.get(
                d, k) == G.get(d, k)), lambda k: [H.get(d, k)]), c.forall(1, lambda k: Imp(k != STR('features'), H.get(o, k) == G.get(o, k)), lambda k: [
                    H.get(o, k)])))]
