"""Contracts for caching and updating sources (sources/database.py, update.py; P17).

Loading from a source, opening a cache for writing and writing it are events of the trace; their outcomes are
arbitrary.  A cache file holds what the history of the file system says (assumed of pickle: what the last event
wrote to the path, if that was it).
"""
from contracts.world import *
from contracts.install import event, trace, ok
from contracts import database as D
from contracts import commands     # os.path.join
from contracts.rules_merge import hashable
from pyvc.theory import Rec

I = M.I
SB = z3.BoolSort()
DB = D.DB
TR = M.comp_sort('tr')
db.fields['SourcesContext'] = {'cache_dir': 'str', 'sources_dir': 'str', 'spec_plugins': 'list[Spec]'}
db.globals['xylem:__version__'] = 'str'
db.fields['File'] = {'path': 'any', 'mode': 'str'}
_uid = z3.Function('rs:unique id', M.V, M.V, M.S)            # of a spec and arguments
_fetched = z3.Function('rs:fetched data', I, M.V)            # by the load at this time
_unreach = z3.Function('rs:cannot load', I, SB)
_clock = z3.Function('rs:clock', I, M.V)
_accept = z3.Function('rs:accepts data', M.V, M.V, M.V, SB)    # spec, data, arguments
_argok = z3.Function('rs:accepts arguments', M.V, M.V, SB)
_opens = z3.Function('rs:can be written', I, SB)              # the opening at this time succeeds
_dumps = z3.Function('rs:is written', I, SB)
# what a file holds after the history of events: readable, a dictionary with entries
_readable = z3.Function('rs:readable', TR, I, M.V, SB)
_isdict = z3.Function('rs:holds a dictionary', TR, I, M.V, SB)
_entry = z3.Function('rs:holds', TR, I, M.V, M.V, M.V)
KEYS = ['xylem_version', 'spec_name', 'spec_version', 'arguments', 'origin', 'data', 'time_data_loaded']


def loading(spec, args):
    return M.vtuple([STR('load'), spec, args])


def opening(path):
    return M.vtuple([STR('open for writing'), path])


def written(path, name, args, origin, data, time):
    return M.vtuple([STR('write'), path, M.vtuple([name, args, origin, M.vtuple([data, time])])])


def _pickle_axiom():
    tr, n = z3.Const('tr!pk', TR), z3.Int('n!pk')
    p, a, b, c_, d, e = z3.Consts('p!pk a!pk b!pk c!pk d!pk e!pk', M.V)
    ev = z3.Select(tr, n - 1)
    body = lambda k, v: _entry(tr, n, p, STR(k)) == v
    w = M.V.t3c(ev)
    is_ = And(n > 0, M.tup_is(ev, 3), M.V.t3a(ev) == STR('write'), M.V.t3b(ev) == p)
    return [z3.ForAll([tr, n, p], z3.Implies(is_, And(
        _readable(tr, n, p), _isdict(tr, n, p), body('spec_name', M.V.t4a(w)), body('arguments', M.V.t4b(w)), body('origin', M.V.t4c(w)),
        body('data', M.V.t2a(M.V.t4d(w))), body('time_data_loaded', M.V.t2b(M.V.t4d(w))),
        *[_entry(tr, n, p, STR(k)) != ABSENT for k in KEYS])), patterns=[_readable(tr, n, p)])]


M.OPAQUE['rs:readable'] = _pickle_axiom()


def h_op(name):
    def h(ex, st, args, kw, X, node):
        return [(st, B.uf_str(name, *[ex.sv(st, a).t for a in args]))]
    return h


db.externals['hashlib.sha1'] = lambda ex, st, args, kw, X, node: [(st, E.SV(B.uf_str('sha1', ex.sv(st, args[0]).t).t, ('any',)))]
db.externals['$method.hexdigest'] = h_op('hexdigest')
db.externals[TXT + 'to_bytes'] = h_op('to_bytes')


def h_now(ex, st, args, kw, X, node):
    v = _clock(st.H.trn())
    st.assume(v != ABSENT, Not(M.V.is_ref(v)))
    return [(st, E.SV(v, ('any',)))]


db.externals['datetime.datetime.now'] = h_now


def h_open(ex, st, args, kw, X, node):
    path, mode = ex.sv(st, args[0]), E.str_lit(ex.sv(st, args[1] if len(args) > 1 else kw.get('mode', ex.const('r'))).t)
    if mode not in ('rb', 'wb'):
        raise M.Unsupported('open mode')
    f = E.SV(ex.alloc(st, 'obj', 'File'), ('obj', 'File'))
    k = st.H.trn()
    if mode == 'wb':
        ex.event(st, opening(path.t))
        good = _opens(k)
    else:
        good = _readable(st.H.comp('tr'), k, path.t)
    x = st.copy()
    ex.raise_(x, 'OSError', X)
    x.assume(Not(good))
    if mode == 'wb':
        st.assume(good)
    st.assume(st.H.field(f.t, 'path') == path.t, st.H.field(f.t, 'mode') == STR(mode))
    return [(st, f)]


db.externals['builtins.open'] = h_open


def h_pickle_load(ex, st, args, kw, X, node):
    f = ex.sv(st, args[0]).t
    H = st.H
    path = H.field(f, 'path')
    ex.oblige(st, 'read from a file opened for reading', H.field(f, 'mode') == STR('rb'))
    a = (H.comp('tr'), H.trn(), path)
    x = st.copy()
    ex.raise_(x, 'Exception', X)
    x.assume(Not(_readable(*a)))
    st.assume(_readable(*a))
    # a new dictionary, or something else
    d = ex.new_dict(st)
    m = M.fconst('loaded', M.MapS)
    k = z3.Const('k!ld', M.V)
    e = _entry(a[0], a[1], a[2], k)
    st.assume(z3.ForAll([k], And(z3.Select(m, k) == e, Imp(M.V.is_ref(e), And(M.V.r(e) >= 0, M.V.r(e) < st.alloc))), patterns=[z3.Select(m, k)]))
    y = st.copy()
    y.assume(Not(_isdict(*a)))
    v = M.fconst('loaded', M.V)
    y.assume(v != ABSENT, Not(And(M.V.is_ref(v), M.kindf(M.V.r(v)) == M.K_DICT)), Imp(M.V.is_ref(v), And(M.V.r(v) >= 0, M.V.r(v) < y.alloc)))
    st.assume(_isdict(*a))
    ex.set_map(st, d.t, m)
    return [(st, E.SV(d.t, ('any',))), (y, E.SV(v, ('any',)))]


for mod in ('six.moves.cPickle', 'pickle'):
    db.externals[mod + '.load'] = h_pickle_load


def h_pickle_dump(ex, st, args, kw, X, node):
    o, f = ex.sv(st, args[0]).t, ex.sv(st, args[1]).t
    H = st.H
    ex.oblige(st, 'written to a file opened for writing', H.field(f, 'mode') == STR('wb'))
    st = ex.need(st, H.isdict(o), X, 'Exception')
    k = st.H.trn()
    x = st.copy()
    ex.raise_(x, 'Exception', X)
    x.assume(Not(_dumps(k)))
    st.assume(_dumps(k))
    g = lambda n: st.H.get(o, STR(n))
    ex.oblige(st, 'all entries written', And(*[g(n) != ABSENT for n in KEYS]))
    ex.event(st, written(H.field(f, 'path'), g('spec_name'), g('arguments'), g('origin'), g('data'), g('time_data_loaded')))
    return [(st, ex.const(None))]


for mod in ('six.moves.cPickle', 'pickle'):
    db.externals[mod + '.dump'] = h_pickle_dump

method('Spec.unique_id', ['self', 'arguments'], 'str', lambda c: [('id', c.res == M.V.str(_uid(c.a.self, c.a.arguments)))], allocs_=False)
method('Spec.load_data', ['self', 'arguments'], 'any', lambda c: event(c, loading(c.a.self, c.a.arguments)) + [
    ('data', c.res == _fetched(c.pre.trn())), ('reached', Not(_unreach(c.pre.trn())))], modifies_=trace(), raises_={'Exception': None},
    exc=lambda c, e: event(c, loading(c.a.self, c.a.arguments)) + [('failed', _unreach(c.pre.trn()))])
method('Spec.verify_data', ['self', 'data', 'arguments'], 'any', lambda c: [('accepted', _accept(c.a.self, c.a.data, c.a.arguments))],
       raises_={'Exception': lambda c: Not(_accept(c.a.self, c.a.data, c.a.arguments))})
method('Spec.verify_arguments', ['self', 'arguments'], 'any', lambda c: [('accepted', _argok(c.a.self, c.a.arguments))],
       raises_={'Exception': lambda c: Not(_argok(c.a.self, c.a.arguments))})


# ------------------------------------------------------------------ one source
def fld(H, s, f):
    return H.field(s, f)


def cache_path(H, s):
    """path of the cache of source s"""
    i = M.V.str(_uid(fld(H, s, 'spec'), fld(H, s, 'arguments')))
    name = B.uf_str('hexdigest', B.uf_str('sha1', B.uf_str('to_bytes', i).t).t).t
    f = z3.Function('strcat', M.S, M.S, M.S)
    return B.uf_str('path.join2', fld(H, fld(H, s, 'sources_context'), 'cache_dir'), M.V.str(f(M.V.s(name), M.V.s(STR('.pickle'))))).t


def cached(H, s, k):
    return _entry(H.comp('tr'), H.trn(), cache_path(H, s), STR(k))


def usable(H, s):
    """the cache of the source can be read and holds valid data for its spec"""
    a = (H.comp('tr'), H.trn(), cache_path(H, s))
    sp, args = fld(H, s, 'spec'), fld(H, s, 'arguments')
    return And(_readable(*a), _isdict(*a), *([cached(H, s, k) != ABSENT for k in KEYS] + [
        cached(H, s, 'spec_name') == fld(H, sp, 'name'), _argok(sp, args), _accept(sp, cached(H, s, 'data'), args)]))


STATE = ['arguments', 'origin', 'data', 'time_data_loaded']


def unchanged(c, s):
    return [('state unchanged', And(*[fld(c.post, s, f) == fld(c.pre, s, f) for f in STATE]))]


def own(*fs):
    return {'f.' + f: (lambda c, r: r == M.rid(c.a.self)) for f in fs}


def loads(t, H, s):
    """the load at time t of source s succeeds"""
    return And(Not(_unreach(t)), _accept(fld(H, s, 'spec'), _fetched(t), fld(H, s, 'arguments')))


@contract
class load_source(Contract):
    key = DB + 'RulesSource.load_from_source'
    result = 'none'
    raises = {'Exception': None}
    modifies = dict(trace(), **own('data', 'time_data_loaded'))

    def ev(c):
        return event(c, loading(fld(c.pre, c.a.self, 'spec'), fld(c.pre, c.a.self, 'arguments')))

    def ensures(c):
        t, s = c.pre.trn(), c.a.self
        return load_source.ev(c) + [('valid', loads(t, c.pre, s)), ('data', fld(c.post, s, 'data') == _fetched(t)),
                                    ('time', fld(c.post, s, 'time_data_loaded') == _clock(t + 1))]

    def ens_exc(c, e):
        return load_source.ev(c) + [('could not be loaded', Not(loads(c.pre.trn(), c.pre, c.a.self)))] + unchanged(c, c.a.self)


@contract
class load_cache(Contract):
    key = DB + 'RulesSource.load_from_cache'
    result = 'none'
    raises = {'Exception': lambda c: Not(usable(c.pre, c.a.self))}
    modifies = own(*STATE)

    def ensures(c):
        return [('valid', usable(c.pre, c.a.self)),
                ('restored', And(*[fld(c.post, c.a.self, f) == cached(c.pre, c.a.self, f) for f in STATE]))]

    def ens_exc(c, e):
        return unchanged(c, c.a.self)


def cache_event(H, s):
    return written(cache_path(H, s), fld(H, fld(H, s, 'spec'), 'name'), *[fld(H, s, f) for f in STATE])


@contract
class save_cache(Contract):
    key = DB + 'RulesSource.save_to_cache'
    result = 'none'
    raises = {'Exception': None}
    modifies = trace()

    def ensures(c):
        t, H, s = c.pre.trn(), c.post, c.a.self
        return [('written', And(H.trn() == t + 2, H.tr(t) == opening(cache_path(c.pre, s)), H.tr(t + 1) == cache_event(c.pre, s), _opens(t), _dumps(t + 1)))]

    def ens_exc(c, e):
        t, H, s = c.pre.trn(), c.post, c.a.self
        return [('not written', And(H.trn() == t + 1, H.tr(t) == opening(cache_path(c.pre, s)), Not(And(_opens(t), _dumps(t + 1)))))]


db.clients['verif.caches'] = '''
def save_and_load(a, b):
    a.save_to_cache()
    b.load_from_cache()
'''


@contract
class roundtrip(Contract):
    key = 'verif.caches:save_and_load'
    types = {'a': 'RulesSource', 'b': 'RulesSource'}
    result = 'none'
    raises = {'Exception': lambda c: Not(And(_opens(c.pre.trn()), _dumps(c.pre.trn() + 1), roundtrip.good(c)))}
    modifies = dict(trace(), **{'f.' + f: (lambda c, r: r == M.rid(c.a.b)) for f in STATE})

    def good(c):
        sp, args = fld(c.pre, c.a.a, 'spec'), fld(c.pre, c.a.a, 'arguments')
        return And(_argok(sp, args), _accept(sp, fld(c.pre, c.a.a, 'data'), args))

    def requires(c):
        a, b, H = c.a.a, c.a.b, c.pre
        return [('same source', And(*[fld(H, a, f) == fld(H, b, f) for f in ('spec', 'arguments', 'sources_context')]))]

    def ensures(c):
        return [('restored', And(*[fld(c.post, c.a.b, f) == fld(c.pre, c.a.a, f) for f in STATE]))]


# ------------------------------------------------------------------ all sources
def srcs(c):
    return fld(c.pre, c.a.self, 'sources')


def after(c, j):
    """time at which the processing of source j starts"""
    return when(*(ua(c) + [c.pre.trn(), j]))


UA = [M.comp_sort('f.x'), M.comp_sort('f.x'), M.SeqS]


def _ld(sp, ar, s, j, t):
    r = M.V.r(z3.Select(s, j))
    return And(Not(_unreach(t)), _accept(z3.Select(sp, r), _fetched(t), z3.Select(ar, r)))


def done(sp, ar, s, k, t):
    """time at which the processing of source k, started at time t, ends"""
    return t + 1 + Ite(_ld(sp, ar, s, k, t), 1 + Ite(And(_opens(t + 1), _dumps(t + 2)), 1, 0), 0)


when = Rec('rs:processing time', UA + [I], lambda sp, ar, s, t0: t0, lambda sp, ar, s, t0, k, t: done(sp, ar, s, k, t))


def ua(c):
    return [c.pre.comp('f.spec'), c.pre.comp('f.arguments'), c.pre.lseq(srcs(c))]


def processed(c, H, n):
    """the first n sources are loaded and cached, in order"""
    s = lambda j: c.pre.at(srcs(c), j)
    t = lambda j: after(c, j)
    lo = lambda j: loads(t(j), c.pre, s(j))
    sp = lambda j: fld(c.pre, s(j), 'spec')
    return [
        ('in time', c.forall(1, lambda j: Imp(ok(j, n), done(*(ua(c) + [j, t(j)])) <= H.trn()), lambda j: [t(j)], [I])),
        ('each loaded', c.forall(1, lambda j: Imp(ok(j, n), H.tr(t(j)) == loading(sp(j), fld(c.pre, s(j), 'arguments'))), lambda j: [t(j)], [I])),
        ('cached if loaded', c.forall(1, lambda j: Imp(And(ok(j, n), lo(j)), And(
            H.tr(t(j) + 1) == opening(cache_path(c.pre, s(j))), Imp(And(_opens(t(j) + 1), _dumps(t(j) + 2)), H.tr(t(j) + 2) == written(
                cache_path(c.pre, s(j)), fld(c.pre, sp(j), 'name'), fld(c.pre, s(j), 'arguments'), fld(c.pre, s(j), 'origin'),
                _fetched(t(j)), _clock(t(j) + 1))))), lambda j: [t(j)], [I])),
        ('state', c.forall(1, lambda j: Imp(ok(j, c.pre.llen(srcs(c))), And(
            fld(H, s(j), 'data') == Ite(And(j < n, lo(j)), _fetched(t(j)), fld(c.pre, s(j), 'data')),
            fld(H, s(j), 'time_data_loaded') == Ite(And(j < n, lo(j)), _clock(t(j) + 1), fld(c.pre, s(j), 'time_data_loaded')))), lambda j: [
                c.pre.at(srcs(c), j)], [I]))]


RAISE = lambda c: fld(c.pre, c.a.self, 'raise_on_error') == M.vbool(True)


@contract
class update(Contract):
    key = DB + 'RulesDatabase.update'
    result = 'none'
    raises = {'Exception': RAISE}
    modifies = dict(trace(), **{'f.' + f: (lambda c, r: M.exists(1, lambda j: And(ok(j, c.pre.llen(srcs(c))), r == M.rid(c.pre.at(
        srcs(c), j))), [I])) for f in ('data', 'time_data_loaded')})

    def requires(c):
        s, n = srcs(c), c.pre.llen(srcs(c))
        return [('sources', tfield(c.pre, c.a.self, 'sources', 'list[RulesSource]')),
                ('hashable origins', c.forall(1, lambda j: Imp(ok(j, n), hashable(fld(c.pre, c.pre.at(s, j), 'origin'))), lambda j: [c.pre.at(s, j)], [I])),
                ('different sources', c.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < n), c.pre.at(s, i) != c.pre.at(s, j)), lambda i, j: [
                    z3.MultiPattern(c.pre.at(s, i), c.pre.at(s, j))], [I, I]))]

    def inv(c):
        return [('time', c.h.trn() == after(c, c.idx))] + processed(c, c.h, c.idx)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        n = c.pre.llen(srcs(c))
        return [('every source processed', c.post.trn() == after(c, n))] + processed(c, c.post, n)


def region(*fs):
    return {'f.' + f: (lambda c, r: M.exists(1, lambda j: And(ok(j, c.pre.llen(srcs(c))), r == M.rid(c.pre.at(srcs(c), j))), [I])) for f in fs}


def all_sources(c, n, f):
    """f(j, source) for every source; processed ones are those below n"""
    return c.forall(1, lambda j: Imp(ok(j, c.pre.llen(srcs(c))), f(j, c.pre.at(srcs(c), j))), lambda j: [c.pre.at(srcs(c), j)], [I])


@contract
class db_load_cache(Contract):
    key = DB + 'RulesDatabase.load_from_cache'
    result = 'none'
    raises = {'Exception': lambda c: And(RAISE(c), Not(all_sources(c, None, lambda j, s: usable(c.pre, s))))}
    modifies = region(*STATE)
    requires = update.requires

    def state(c, H, n):
        return [('state', all_sources(c, n, lambda j, s: And(*[fld(H, s, f) == Ite(And(j < n, usable(c.pre, s)), cached(
            c.pre, s, f), fld(c.pre, s, f)) for f in STATE])))]

    def inv(c):
        return db_load_cache.state(c, c.h, c.idx)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        return db_load_cache.state(c, c.post, c.pre.llen(srcs(c)))


@contract
class db_load_source(Contract):
    key = DB + 'RulesDatabase.load_from_source'
    result = 'none'
    raises = {'Exception': RAISE}
    modifies = dict(trace(), **region('data', 'time_data_loaded'))
    requires = update.requires

    def state(c, H, n):
        t = lambda j: c.pre.trn() + j
        lo = lambda j, s: And(j < n, loads(t(j), c.pre, s))
        return [('each loaded', all_sources(c, n, lambda j, s: Imp(j < n, H.tr(t(j)) == loading(fld(c.pre, s, 'spec'), fld(c.pre, s, 'arguments'))))),
                ('time', H.trn() == t(n)),
                ('state', all_sources(c, n, lambda j, s: And(
                    fld(H, s, 'data') == Ite(lo(j, s), _fetched(t(j)), fld(c.pre, s, 'data')),
                    fld(H, s, 'time_data_loaded') == Ite(lo(j, s), _clock(t(j) + 1), fld(c.pre, s, 'time_data_loaded')))))]

    def inv(c):
        return db_load_source.state(c, c.h, c.idx)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        return db_load_source.state(c, c.post, c.pre.llen(srcs(c)))


def kept(t):
    return And(_opens(t), _dumps(t + 1))


saved_at = Rec('rs:saving time', [I], lambda t0: t0, lambda t0, k, t: t + Ite(kept(t), 2, 1))


@contract
class db_save(Contract):
    key = DB + 'RulesDatabase.save_to_cache'
    result = 'none'
    raises = {'Exception': RAISE}
    modifies = trace()
    requires = update.requires

    def state(c, H, n):
        t = lambda j: saved_at(c.pre.trn(), j)
        return [('time', H.trn() == t(n)),
                ('in time', c.forall(1, lambda j: Imp(ok(j, n), t(j) + Ite(kept(t(j)), 2, 1) <= H.trn()), lambda j: [t(j)], [I])),
                ('each written', c.forall(1, lambda j: Imp(And(ok(j, n)), And(H.tr(t(j)) == opening(cache_path(c.pre, c.pre.at(srcs(c), j))), Imp(
                    kept(t(j)), H.tr(t(j) + 1) == cache_event(c.pre, c.pre.at(srcs(c), j))))), lambda j: [t(j)], [I]))]

    def inv(c):
        return db_save.state(c, c.h, c.idx)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        return db_save.state(c, c.post, c.pre.llen(srcs(c)))
