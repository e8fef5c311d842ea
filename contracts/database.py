"""Contracts for lookup and keys of the rules database (sources/database.py)."""
from contracts.world import *
from contracts.rules_verify import okinst, DI
from contracts import rules_merge as RM

DB = 'xylem.sources.database:'
I, A = M.I, z3.ArraySort(M.I, M.V)

db.fields['RulesSource'] = {'spec': 'Spec', 'arguments': 'any', 'origin': 'any', 'sources_context': 'SourcesContext', 'data': 'any',
                            'time_data_loaded': 'any'}
db.fields['RulesDatabase'] = {'sources': 'list[RulesSource]', 'sources_context': 'SourcesContext', 'print_info': 'bool',
                              'raise_on_error': 'bool'}
db.interface['Spec'] = {'props': {'name': 'str', 'version': 'any'}}


# ------------------------------------------------------------------ plugins
def answer(spec, data, key, ic, i):
    """the spec's rule for installer i, ABSENT if none"""
    return ufv('spec.rule', spec, data, key, ic, i)


def valid(spec, data, key, ic):
    """the spec's answer is an installer map without default installer"""
    return ufb('spec.valid', spec, data, key, ic)


def fails(spec, data, key, ic):
    return ufb('spec.fails', spec, data, key, ic)


def defines(spec, data, ic, key):
    return ufb('spec.defines', spec, data, ic, key)


def foreign(c, v):
    """plugins do not return objects which the calling function created and did not pass on"""
    return Or(M.rid(v) >= c.alloc0, M.rid(v) < c.ex.top.pre.pre_heap.alloc)


method('Spec.lookup', ['self', 'data', 'xylem_key', 'installer_context'], 'any', lambda c: [
    ('valid', okinst(c.post, c.res, z3.BoolVal(False)) == valid(c.a.self, c.a.data, c.a.xylem_key, c.a.installer_context)),
    ('foreign', foreign(c, c.res)), ('succeeds', Not(fails(c.a.self, c.a.data, c.a.xylem_key, c.a.installer_context))),
    ('answer', Imp(c.post.isdict(c.res), M.forall(1, lambda i: c.post.get(c.res, i) == answer(
        c.a.self, c.a.data, c.a.xylem_key, c.a.installer_context, i), lambda i: [c.post.get(c.res, i)])))],
    raises_={'InstallerError': never, 'Exception': lambda c: fails(c.a.self, c.a.data, c.a.xylem_key, c.a.installer_context)})


def set_or_list(H, v, x):
    j = M.exists(1, lambda j: And(j >= 0, j < H.llen(v), H.at(v, j) == x), [I])
    return j


method('Spec.keys', ['self', 'data', 'installer_context'], 'list[str]', lambda c: [
    ('foreign', foreign(c, c.res)),
    ('keys', M.forall(1, lambda x: defines(c.a.self, c.a.data, c.a.installer_context, x) == set_or_list(c.post, c.res, x),
                      lambda x: [defines(c.a.self, c.a.data, c.a.installer_context, x)])),
    ('keys 2', M.forall(1, lambda j: Imp(And(j >= 0, j < c.post.llen(c.res)), defines(
        c.a.self, c.a.data, c.a.installer_context, c.post.at(c.res, j))), lambda j: [c.post.at(c.res, j)], [I]))],
    raises_={'InstallerError': never, 'Exception': None})


# ------------------------------------------------------------------ one source
def spec(H, s):
    return H.field(s, 'spec')


def data(H, s):
    return H.field(s, 'data')


def rule(H, s, key, ic, i):
    return answer(spec(H, s), data(H, s), key, ic, i)


def good(H, s, key, ic):
    return And(valid(spec(H, s), data(H, s), key, ic), Not(fails(spec(H, s), data(H, s), key, ic)))


@contract
class source_lookup(Contract):
    key = DB + 'RulesSource.lookup'
    types = {'xylem_key': 'any', 'installer_context': 'any'}
    result = 'dict'
    raises = {'InstallerError': never, 'ValueError': lambda c: Not(good(c.pre, c.a.self, c.a.xylem_key, c.a.installer_context)),
              'Exception': lambda c: fails(spec(c.pre, c.a.self), data(c.pre, c.a.self), c.a.xylem_key, c.a.installer_context)}

    def ensures(c):
        a = c.a
        return [('valid', good(c.pre, a.self, a.xylem_key, a.installer_context)),
                ('foreign', foreign(c, c.res)),
                ('no default', Not(c.post.has(c.res, DI))),
                ("the spec's answer", c.forall(1, lambda i: c.post.get(c.res, i) == rule(
                    c.pre, a.self, a.xylem_key, a.installer_context, i), lambda i: [c.post.get(c.res, i)]))]

    def hints(c):
        return [('named', c.forall(1, lambda i: Imp(c.post.has(c.res, i), i != DI), lambda i: [c.post.get(c.res, i)]))]


@contract
class source_keys(Contract):
    key = DB + 'RulesSource.keys'
    types = {'installer_context': 'any'}
    result = 'list[str]'
    raises = {'InstallerError': never, 'Exception': None}

    def ensures(c):
        a = c.a
        d = lambda x: defines(spec(c.pre, a.self), data(c.pre, a.self), a.installer_context, x)
        return [('foreign', foreign(c, c.res)),
                ("the spec's keys", M.forall(1, lambda x: d(x) == set_or_list(c.post, c.res, x), lambda x: [d(x)])),
                ("the spec's keys only", c.forall(1, lambda j: Imp(And(j >= 0, j < c.post.llen(c.res)), d(c.post.at(c.res, j))),
                                                  lambda j: [c.post.at(c.res, j)], [I]))]


# ------------------------------------------------------------------ all sources
def dbrule(H, src, key, ic, i, lo=0):
    """rule of the first of the sources lo, lo+1, ... that has one for installer i"""
    return _dbrule(H.comp('f.spec'), H.comp('f.data'), H.lseq(src), H.llen(src), key, ic, i, z3.IntVal(lo) if isinstance(lo, int) else lo)


_dbrule = z3.Function('first source rule', A, A, M.SeqS, I, M.V, M.V, M.V, I, M.V)


def _def():
    sp, da, s, n, key, ic, i = z3.Const('sp', A), z3.Const('da', A), z3.Const('s', M.SeqS), z3.Int('n'), *z3.Consts('key ic i', M.V)
    l, m = z3.Ints('l m')
    t = lambda l: _dbrule(sp, da, s, n, key, ic, i, l)
    r = M.V.r(z3.Select(s, l))
    return [z3.ForAll([sp, da, s, n, key, ic, i, l], z3.Implies(l >= n, t(l) == ABSENT), patterns=[t(l)]),
            z3.ForAll([sp, da, s, n, key, ic, i, l, m], z3.Implies(z3.And(l >= 0, l < n, m == l + 1), t(l) == over(answer(
                z3.Select(sp, r), z3.Select(da, r), key, ic, i), t(m))), patterns=[z3.MultiPattern(t(l), t(m))])]


M.OPAQUE['first source rule'] = _def()


def answered(H, src, key, ic):
    """every source of the list has a valid answer"""
    return _answered(H.comp('f.spec'), H.comp('f.data'), H.lseq(src), H.llen(src), key, ic)


_answered = z3.Function('every source answers', A, A, M.SeqS, I, M.V, M.V, z3.BoolSort())


def _def3():
    sp, da, s, n, key, ic, j = z3.Const('sp', A), z3.Const('da', A), z3.Const('s', M.SeqS), z3.Int('n'), *z3.Consts('key ic', M.V), z3.Int('j')
    r = M.V.r(z3.Select(s, j))
    a = (z3.Select(sp, r), z3.Select(da, r), key, ic)
    t = _answered(sp, da, s, n, key, ic)
    return [z3.ForAll([sp, da, s, n, key, ic], t == z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(valid(*a), z3.Not(fails(*a)))),
                                                             patterns=[z3.Select(s, j)]), patterns=[t])]


M.OPAQUE['every source answers'] = _def3()


def src(c):
    return c.pre.field(c.a.self, 'sources')


def nsrc(c):
    return c.pre.llen(src(c))


def each(c, f, lo=0):
    return c.forall(1, lambda j: Imp(And(j >= lo, j < nsrc(c)), f(c.pre.at(src(c), j))), lambda j: [c.pre.at(src(c), j)], [I])


def some(c, f):
    return M.exists(1, lambda j: And(j >= 0, j < nsrc(c), f(c.pre.at(src(c), j))), [I])


@contract
class lookup(Contract):
    key = DB + 'RulesDatabase.lookup'
    types = {'xylem_key': 'any', 'installer_context': 'any'}
    result = 'dict'
    raises = {'InstallerError': never, 'ValueError': lambda c: Not(answered(c.pre, src(c), c.a.xylem_key, c.a.installer_context)),
              'Exception': lambda c: Not(answered(c.pre, src(c), c.a.xylem_key, c.a.installer_context))}

    def requires(c):
        return [('sources', tfield(c.pre, c.a.self, 'sources', 'list[RulesSource]'))]

    def ensures(c):
        a = c.a
        return [('fresh', M.rid(c.res) >= c.alloc0),
                ('every answer is valid', answered(c.pre, src(c), a.xylem_key, a.installer_context)),
                ('first source with a rule', c.forall(1, lambda i: c.post.get(c.res, i) == dbrule(
                    c.pre, src(c), a.xylem_key, a.installer_context, i), lambda i: [c.post.get(c.res, i), dbrule(
                        c.pre, src(c), a.xylem_key, a.installer_context, i)]))]

    @staticmethod
    def inv(c):
        a = c.a
        lo = nsrc(c) - c.idx
        return [('valid', each(c, lambda s: good(c.pre, s, a.xylem_key, a.installer_context), lo)),
                ('rules so far', c.forall(1, lambda i: c.h.get(c.l('installer_dict'), i) == dbrule(
                    c.pre, src(c), a.xylem_key, a.installer_context, i, lo), lambda i: [c.h.get(c.l('installer_dict'), i)]))]
    loops = {0: inv}


def defined(H, s, ic, x):
    """some source in list s defines key x"""
    return _defined(H.comp('f.spec'), H.comp('f.data'), H.lseq(s), H.llen(s), ic, x)


_defined = z3.Function('some source defines', A, A, M.SeqS, I, M.V, M.V, z3.BoolSort())


def _def2():
    sp, da, s, n, ic, x, j = z3.Const('sp', A), z3.Const('da', A), z3.Const('s', M.SeqS), z3.Int('n'), *z3.Consts('ic x', M.V), z3.Int('j')
    t = _defined(sp, da, s, n, ic, x)
    d = lambda j: defines(z3.Select(sp, M.V.r(z3.Select(s, j))), z3.Select(da, M.V.r(z3.Select(s, j))), ic, x)
    w = z3.Function('source defining', A, A, M.SeqS, I, M.V, M.V, I)(sp, da, s, n, ic, x)
    return [z3.ForAll([sp, da, s, n, ic, x], z3.Implies(t, z3.And(w >= 0, w < n, d(w))), patterns=[t]),
            z3.ForAll([sp, da, s, n, ic, x, j], z3.Implies(z3.And(j >= 0, j < n, d(j)), t), patterns=[z3.MultiPattern(t, z3.Select(s, j))])]


M.OPAQUE['some source defines'] = _def2()


@contract
class keys(Contract):
    key = DB + 'RulesDatabase.keys'
    types = {'installer_context': 'any'}
    result = 'list[str]'
    raises = {'InstallerError': never, 'Exception': None}

    def requires(c):
        return [('sources', tfield(c.pre, c.a.self, 'sources', 'list[RulesSource]'))]

    def ensures(c):
        d = lambda x: defined(c.pre, src(c), c.a.installer_context, x)
        at = c.post.at
        return [('fresh', M.rid(c.res) >= c.alloc0),
                ('every key of a source', c.forall(1, lambda x: Imp(d(x), set_or_list(c.post, c.res, x)), lambda x: [d(x)])),
                ('only keys of a source', c.forall(1, lambda j: Imp(And(j >= 0, j < c.post.llen(c.res)), d(at(c.res, j))),
                                                   lambda j: [at(c.res, j)], [I])),
                ('once', c.forall(2, lambda i, j: Imp(And(i >= 0, i < j, j < c.post.llen(c.res)), at(c.res, i) != at(c.res, j)),
                                  lambda i, j: [z3.MultiPattern(at(c.res, i), at(c.res, j))], [I, I]))]

    @staticmethod
    def inv(c):
        k, ic = c.l('keys'), c.a.installer_context
        by = lambda j, x: defines(spec(c.pre, c.pre.at(src(c), j)), data(c.pre, c.pre.at(src(c), j)), ic, x)
        return [('all', c.forall(2, lambda j, x: Imp(And(j >= 0, j < c.idx, by(j, x)), c.h.has(k, x)),
                                 lambda j, x: [by(j, x)], [I, M.V])),
                ('only', c.forall(1, lambda x: Imp(c.h.has(k, x), And(M.V.is_str(x), M.exists(
                    1, lambda j: And(j >= 0, j < c.idx, by(j, x)), [I]))), lambda x: [c.h.get(k, x)]))]
    loops = {0: inv}
