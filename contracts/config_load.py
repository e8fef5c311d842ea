"""Contracts for configuration files and the cascade of sources (config_utils.py, config.py; P14, P15).

The content of files is arbitrary but does not change while it is read.
"""
import types
from contracts.config_desc import *
from contracts import config_dirs as CD
from contracts.config_types import _ybad, _ydoc
from contracts.rules_merge import hashable

CF = 'xylem.config:'
_opens = z3.Function('rs:can open', M.V, SB)
_reads = z3.Function('rs:can read', M.V, SB)
_data = z3.Function('rs:content', M.V, M.V)
_undec = z3.Function('rs:cannot decode', M.V, SB)
isfile = lambda p: B.uf_bool('path.isfile', p)
db.fields['File'] = {'path': 'str', 'mode': 'str'}
_old_to_str = db.externals[TXT + 'to_str']


def h_isfile(ex, st, args, kw, X, node):
    return [(st, ex.bsv(isfile(ex.sv(st, args[0]).t)))]


def h_open(ex, st, args, kw, X, node):
    p, mode = ex.sv(st, args[0]), E.str_lit(ex.sv(st, args[1] if len(args) > 1 else kw.get('mode', ex.const('r'))).t)
    if mode != 'rb':
        raise M.Unsupported('open mode')
    x = st.copy()
    ex.raise_(x, 'OSError', X)
    x.assume(Not(_opens(p.t)))
    f = E.SV(ex.alloc(st, 'obj', 'File'), ('obj', 'File'))
    st.assume(_opens(p.t), st.H.field(f.t, 'path') == p.t, st.H.field(f.t, 'mode') == STR(mode))
    return [(st, f)]


def h_to_str(ex, st, args, kw, X, node):
    """decoding of what was read may fail"""
    try:
        v = ex.sv(st, args[0])
    except M.Unsupported:
        v = None
    if v is None or v.ty == ('str',) or kw or len(args) > 1 or ex.refuted(st, Not(M.V.is_str(v.t))):
        return _old_to_str(ex, st, args, kw, X, node)
    x = st.copy()
    ex.raise_(x, 'UnicodeDecodeError', X)
    x.assume(_undec(v.t))
    st.assume(Not(_undec(v.t)))
    return [(st, B.uf_str('to_str', v.t))]


db.externals['os.path.isfile'] = h_isfile
db.externals['builtins.open'] = h_open
db.externals[TXT + 'to_str'] = h_to_str
method('File.read', ['self'], 'any', lambda c: [('content', c.res == _data(c.pre.field(c.a.self, 'path'))), ('bytes', And(c.res != NONE, c.res != ABSENT, Not(
    M.V.is_ref(c.res)))), ('readable', _reads(c.pre.field(c.a.self, 'path')))], raises_={'OSError': lambda c: Not(_reads(c.pre.field(c.a.self, 'path')))}, allocs_=False)


# ------------------------------------------------------------------ files
def wellformed(H, v):
    """v is a dictionary with texts as keys"""
    return And(H.isdict(v), M.forall(1, lambda k: Imp(H.has(v, k), M.V.is_str(k)), lambda k: [H.get(v, k)]))


@contract
class structure(Contract):
    key = CU + 'process_config_file_yaml'
    types = {'config': 'any'}
    result = 'dict'
    raises = {CVE: lambda c: And(c.a.config != NONE, Not(wellformed(c.pre, c.a.config)))}
    loops = {0: lambda c: [('texts', c.forall(1, lambda k: Imp(c.done(k), M.V.is_str(k)), lambda k: [c.done(k)]))]}

    def ensures(c):
        return [('nothing', Imp(c.a.config == NONE, And(emptydict(c.post, c.res), M.rid(c.res) >= c.alloc0))),
                ('as it is', Imp(c.a.config != NONE, c.res == c.a.config)), ('well formed', wellformed(c.post, c.res))]


def text_of(p):
    return B.uf_str('to_str', _data(p)).t


def unusable(p):
    return And(isfile(p), Or(Not(_opens(p)), Not(_reads(p)), _undec(_data(p)), _ybad(text_of(p))))


def doc_of(p):
    """what the file has: nothing if there is no file"""
    return Ite(isfile(p), _ydoc(text_of(p)), NONE)


def file_refused(H, p):
    return Or(unusable(p), And(doc_of(p) != NONE, Not(wellformed(H, doc_of(p)))))


@contract
class load_file(Contract):
    key = CU + 'load_config_file_yaml'
    types = {'path': 'str'}
    result = 'dict'
    raises = {CVE: lambda c: file_refused(c.pre, c.a.path)}

    def requires(c):
        return CT.docs(c)

    def ensures(c):
        p, d = c.a.path, doc_of(c.a.path)
        return [('usable', Not(unusable(p))), ('nothing', Imp(d == NONE, And(emptydict(c.post, c.res), M.rid(c.res) >= c.alloc0))),
                ('content', Imp(d != NONE, c.res == d)), ('well formed', wellformed(c.post, c.res))]


def file_src(G, p, n):
    """what the file has for item n"""
    return Ite(doc_of(p) == NONE, NONE, src_of(G, doc_of(p), n))


def of_file(c, H, s, p):
    """s is the configuration of file p"""
    G, d = c.pre, c.a.description
    it = G.field(d, 'items')
    return [('new', And(groupdict(H, s), M.rid(s) >= G.alloc))] + exactly(c, G, H, d, s) + [
        ('values', c.forall(1, lambda n: Imp(G.has(it, n), fits(G, itype(G, d, n), file_src(G, p, n), val(H, s, n))), lambda n: [G.get(it, n)]))]


def bad_values(G, d, data):
    it, gs = G.field(d, 'items'), G.field(d, 'groups')
    return Or(M.exists(1, lambda g: And(G.has(gs, g), group_data(G, data, g) != NONE, Not(G.isdict(group_data(G, data, g)))), pats=lambda g: [G.get(gs, g)]),
              M.exists(1, lambda n: And(G.has(it, n), bad(itype(G, d, n), src_of(G, data, n))), pats=lambda n: [G.get(it, n)]))


@contract
class from_file(Contract):
    key = CU + 'config_from_file'
    types = {'filename': 'str', 'description': 'ConfigDescription'}
    result = 'ConfigDict'

    def refused(c, p=None):
        G, d, p = c.pre, c.a.description, c.a.filename if p is None else p
        it = G.field(d, 'items')
        return Or(file_refused(G, p), And(doc_of(p) != NONE, bad_values(G, d, doc_of(p))), And(doc_of(p) == NONE, M.exists(1, lambda n: And(
            G.has(it, n), bad(itype(G, d, n), NONE)), pats=lambda n: [G.get(it, n)])))
    raises = {CVE: lambda c: from_file.refused(c)}

    def requires(c):
        return CT.docs(c) + wfdesc(c, c.pre, c.a.description)

    def ensures(c):
        return of_file(c, c.post, c.res, c.a.filename)


# ------------------------------------------------------------------ the cascade
def directories(c):
    """user and system directory or the given one: texts and number of these"""
    G, a, t = c.pre, c.a.args, c.a.tool_name
    cd, nu = G.field(a, 'config_dir'), G.field(a, 'no_user_config') == M.vbool(True)
    sysd, usr = CD.SYS(G.field(a, 'prefix'), t), CD.USER(t)
    given_, ns = cd != NONE, G.field(c.a.description, 'namespace')
    first = Ite(given_, cd, Ite(nu, sysd, usr))
    return CD.join(first, ns), CD.join(sysd, ns), Ite(Or(given_, nu), 1, 2)


def path(c, j):
    f0, f1, n = directories(c)
    return Ite(j <= 0, f0, f1)


def of_args(c, H, s):
    G, d = c.pre, c.a.description
    it = G.field(d, 'items')
    return [('new', And(groupdict(H, s), M.rid(s) >= G.alloc))] + exactly(c, G, H, d, s) + [
        ('values', c.forall(1, lambda n: Imp(G.has(it, n), arg_fits(c, G.get(it, n), val(H, s, n))), lambda n: [G.get(it, n)]))]


def of_defaults(c, H, s):
    G, d = c.pre, c.a.description
    it = G.field(d, 'items')
    return [('new', And(groupdict(H, s), M.rid(s) >= G.alloc))] + exactly(c, G, H, d, s) + [
        ('default values', c.forall(1, lambda n: Imp(G.has(it, n), val(H, s, n) == G.field(G.get(it, n), 'default')), lambda n: [G.get(it, n)]))]


class Sources(object):
    """configurations merged by load_config"""

    def __init__(self, c):
        m = c.call('merge_configs')
        self.H, self.top, self.more = m.pre, m.a.top, m.a.more_configs


@contract
class load(Contract):
    key = CU + 'load_config'
    types = {'args': 'Args', 'description': 'ConfigDescription', 'tool_name': 'str'}
    result = 'ConfigDict'

    def refused(c):
        f0, f1, n = directories(c)
        return Or(from_args.refused(c), from_file.refused(c, f0), And(n == 2, from_file.refused(c, f1)))
    raises = {CVE: lambda c: load.refused(c)}

    def requires(c):
        return from_args.requires(c) + [('handled arguments', And(M.V.is_str(c.pre.field(
            c.a.args, 'prefix')), c.pre.field(c.a.args, 'config_dir') != STR('')))]

    def inv0(c):
        H, r = c.h, c.l('$acc')
        return [('number', H.llen(r) == c.idx), ('paths', c.forall(1, lambda j: Imp(ok(j, c.idx), H.at(r, j) == CD.join(c.elem(j), c.pre.field(
            c.a.description, 'namespace'))), lambda j: [H.at(r, j)], [I]))]

    def inv1(c):
        H, r = c.h, c.l('$acc')
        return [('number', H.llen(r) == c.idx)] + [('file %s' % l, c.forall(1, lambda j: Imp(ok(j, c.idx), dict(of_file(c, H, H.at(r, j), c.elem(j)))[l]), lambda j: [
            H.at(r, j)], [I])) for l in ('new', 'keys', 'described', 'groups', 'keys of groups', 'values')]
    loops = {0: staticmethod(inv0), 1: staticmethod(inv1)}

    def hints(c):
        m = c.call('merge_configs')
        if m is None:
            return []
        S, n = Sources(c), directories(c)[2]
        it = c.pre.field(c.a.description, 'items')
        a = merge.args(m)
        x = lambda j, k: val(S.H, S.top if j == 0 else S.H.at(S.more, j - 1), k)
        return [('source %d' % j, c.forall(1, lambda k: Imp(And(c.pre.has(it, k), j <= n + 1), sv(*(a + (k, j))) == x(j, k)), lambda k: [
            c.pre.get(it, k)])) for j in range(4)]

    def ensures(c):
        m = c.call('merge_configs')
        if m is None:
            return [('sources are merged', z3.BoolVal(False))]
        S, G, d = Sources(c), c.pre, c.a.description
        it = G.field(d, 'items')
        H, f0, f1, n = S.H, *directories(c)
        at = lambda j: H.at(S.more, j)
        out = [('number of sources', H.llen(S.more) == n + 1)]
        out += [('command line: %s' % l, b) for l, b in of_args(c, H, S.top)]
        out += [('first file: %s' % l, b) for l, b in of_file(c, H, at(0), f0)]
        out += [('second file: %s' % l, Imp(n == 2, b)) for l, b in of_file(c, H, at(1), f1)]
        out += [('defaults: %s' % l, b) for l, b in of_defaults(c, H, at(n))]
        P, r = c.post, c.res
        xs = lambda k: (val(H, S.top, k), val(H, at(0), k), Ite(n == 2, val(H, at(1), k), NONE), G.field(G.get(it, k), 'default'))

        def first(k):
            x, y, z, w = xs(k)
            return Ite(x != NONE, x, Ite(y != NONE, y, Ite(z != NONE, z, w)))

        def entry(k, q):
            x, y, z, w = xs(k)
            return Ite(H.has(x, q), H.get(x, q), Ite(H.has(y, q), H.get(y, q), Ite(And(n == 2, H.has(z, q)), H.get(z, q), H.get(w, q))))
        mg = lambda k: merging(G, itype(G, d, k))
        out += [('new', M.rid(r) >= G.alloc), ('every item', c.forall(1, lambda k: Imp(G.has(it, k), val(P, r, k) != ABSENT), lambda k: [G.get(it, k)])),
                ('first value set', c.forall(1, lambda k: Imp(And(G.has(it, k), Not(mg(k))), val(P, r, k) == first(k)), lambda k: [G.get(it, k)])),
                ('first entries', c.forall(2, lambda k, q: Imp(And(G.has(it, k), mg(k)), P.get(val(P, r, k), q) == entry(k, q)), lambda k, q: [
                    P.get(val(P, r, k), q)]))]
        return out


# ------------------------------------------------------------------ configuration of the API
DESC = CF + '_config_description'
db.mutable_globals[DESC] = 'ConfigDescription'


def the_description(H):
    return H.comp('g.' + DESC)


@contract
class get_description(Contract):
    key = CF + 'get_config_description'
    result = 'ConfigDescription'

    def ensures(c):
        return [('the description', c.res == the_description(c.post))]


def applied(c, **args):
    """context of a contract applied to the given arguments"""
    d = dict(c.__dict__, a=types.SimpleNamespace(**args))
    return E.Ctx(**d)


@contract
class default_config(Contract):
    key = CF + 'get_default_config'
    result = 'ConfigDict'

    def requires(c):
        return wfdesc(c, c.pre, the_description(c.pre))

    def ensures(c):
        return defaults.ensures(applied(c, description=the_description(c.pre)))


@contract
class ensured(Contract):
    key = CF + 'ensure_config'
    types = {'config': 'any'}
    result = 'ConfigDict'

    def asdata(c):
        return applied(c, data=c.a.config, description=the_description(c.pre), use_defaults=M.vbool(True))

    def given_dict(c):
        return And(c.pre.isdict(c.a.config), Not(c.pre.inst(c.a.config, 'ConfigDict')))
    raises = {CVE: lambda c: And(ensured.given_dict(c), parsed.refused(ensured.asdata(c))), 'ValueError': lambda c: And(c.a.config != NONE, Not(c.pre.isdict(
        c.a.config)))}

    def requires(c):
        return wfdesc(c, c.pre, the_description(c.pre))

    def ensures(c):
        return [('as it is', Imp(And(c.pre.isdict(c.a.config), c.pre.inst(c.a.config, 'ConfigDict')), c.res == c.a.config))] + [
            ('parsed: %s' % l, Imp(ensured.given_dict(c), b)) for l, b in parsed.ensures(ensured.asdata(c))]
