"""Contracts for loading plugins (xylem/plugin_utils.py, P18).

Entry points, the definitions they give, classes and objects are arbitrary; instantiations are events of the trace.
"""
from contracts.world import *
from contracts.install import trace, ok
from contracts.rules_verify import ident
from pyvc.theory import Filter, Least, inlist

I = M.I
SB = z3.BoolSort()
PU = 'xylem.plugin_utils:'
NAME, DESC = STR('plugin_name'), STR('description')
_entries = z3.Function('rs:entry points', M.V, M.V)           # of a group: a list
_def = z3.Function('rs:definition', M.V, M.V)                # of an entry point
_class = z3.Function('rs:is a class', M.V, SB)
_sub = z3.Function('rs:subclass of', M.V, M.V, SB)
_oname = z3.Function('rs:object name', M.V, M.V)              # of the objects of a class
_valid = z3.Function('rs:valid object', M.V, M.V, SB)         # class method verify_plugin accepts objects of a class
BASE = M.V.fun(z3.IntVal(M.fun_id('class:PluginBase')))


def h_issubclass(ex, st, args, kw, X, node):
    a, b = [ex.sv(st, x) for x in args]
    for x in (a, b):
        st = ex.need(st, _class(x.t) if not x.t.eq(BASE) else z3.BoolVal(True), X, 'TypeError')
        if st is None:
            return []
    return [(st, ex.bsv(_sub(a.t, b.t)))]


db.externals['builtins.issubclass'] = h_issubclass


def h_entries(ex, st, args, kw, X, node):
    g = ex.sv(st, kw['group'] if 'group' in kw else args[0])
    return [(st, E.SV(_entries(g.t), ('list', ('obj', 'EntryPoint'))))]


db.externals['pkg_resources.iter_entry_points'] = h_entries
db.fields['EntryPoint'] = {'name': 'any'}
method('EntryPoint.load', ['self'], 'any', lambda c: [('definition', c.res == _def(c.a.self))], raises_={'InvalidPluginError': never, 'Exception': None}, allocs_=False)
db.interface['PluginBase'] = {'props': {'name': 'any'}}


def created(cls):
    return M.vtuple([STR('create'), cls])


def h_create(ex, st, args, kw, X, node):
    if len(args) > 1 or kw:
        raise M.Unsupported('creation with arguments')
    cls = args[0].t
    st = ex.need(st, _class(cls), X, 'TypeError')
    if st is None:
        return []
    ex.event(st, created(cls))
    x = st.copy()
    ex.raise_(x, 'Exception', X)
    X[-1][1].open = ('InvalidPluginError',)
    o = ex.alloc(st, 'obj', 'PluginBase')
    st.assume(st.H.field(o, 'name') == _oname(cls), _oname(cls) != ABSENT, ex.hashable(st, E.SV(_oname(cls))),
              z3.Function('rs:class of', M.V, M.V)(o) == cls)
    return [(st, E.SV(o, ('obj', 'PluginBase')))]


classof = z3.Function('rs:class of', M.V, M.V)


def h_verify(ex, st, args, kw, X, node):
    if len(args) != 2 or kw:
        raise M.Unsupported('verify_plugin with other arguments')
    cls, o = args[0].t, ex.sv(st, args[1]).t
    st = ex.need(st, _valid(cls, classof(o)), X, 'InvalidPluginError')
    return [] if st is None else [(st, ex.const(None))]


db.externals['$method.verify_plugin'] = h_verify
for n, p in (('name', 'name'), ('description', 'decription')):
    def mk(p=p, n=n):
        @contract
        class v(Contract):
            key = PU + 'verify_plugin_' + n
            types = {p: 'any'}
            result = 'none'
            raises = {'ValueError': lambda c: Not(M.V.is_str(c.a[p]))}

            def ensures(c):
                return [('text', M.V.is_str(c.a[p]))]
    mk()


@contract
class pclass(Contract):
    key = PU + 'verify_plugin_class'
    types = {'class_': 'any', 'base_class': 'fun'}
    result = 'none'
    raises = {'ValueError': lambda c: Not(And(_sub(c.a.class_, c.a.base_class), _sub(c.a.base_class, BASE))),
              'TypeError': lambda c: Not(_class(c.a.class_))}

    def requires(c):
        return [('class', _class(c.a.base_class))]

    def ensures(c):
        return [('subclass', And(_class(c.a.class_), _sub(c.a.class_, c.a.base_class), _sub(c.a.base_class, BASE)))]


def entry(dm, d, k):
    return z3.Select(z3.Select(dm, M.V.r(d)), k)


def wellformed(dm, d, kind, base):
    """d is a valid definition of a plugin"""
    g = lambda k: entry(dm, d, k)
    return And(M.V.is_ref(d), M.kindf(M.V.r(d)) == M.K_DICT, M.V.is_str(g(NAME)), M.V.is_str(g(DESC)), g(kind) != ABSENT, _class(g(kind)),
               _sub(g(kind), base), _sub(base, BASE))


@contract
class pdef(Contract):
    key = PU + 'verify_plugin_definition'
    types = {'definition': 'any', 'kind': 'str', 'base_class': 'fun'}
    result = 'none'
    raises = {'InvalidPluginError': lambda c: Not(wellformed(c.pre.comp('dm'), c.a.definition, c.a.kind, c.a.base_class))}

    def requires(c):
        return [('class', _class(c.a.base_class))]

    def ensures(c):
        return [('valid', wellformed(c.pre.comp('dm'), c.a.definition, c.a.kind, c.a.base_class))]


@contract
class pobj(Contract):
    key = PU + 'PluginBase.verify_plugin'
    types = {'obj': 'PluginBase', 'cls': 'fun'}
    result = 'none'
    raises = {'InvalidPluginError': lambda c: Not(ident(c.pre.field(c.a.obj, 'name')))}

    def ensures(c):
        return [('valid name', ident(c.pre.field(c.a.obj, 'name')))]


# definitions of the entry points: dictionaries, entries, kind, base class, disabled names
DS = [M.comp_sort('dm'), M.SeqS, M.V, M.V, I, M.SeqS]
_first = M.OPAQUE and z3.Function('seqfirst', I, M.SeqS, M.V, I)


def d_(a, j):
    return _def(z3.Select(a[1], j))


def cls_(a, j):
    return entry(a[0], d_(a, j), a[2])


def live(*a):
    """definition j is valid and enabled"""
    a, j = a[:-1], a[-1]
    return And(wellformed(a[0], d_(a, j), a[2], a[3]), Not(_first(a[4], a[5], entry(a[0], d_(a, j), NAME)) < a[4]))


def good(*a):
    """...and its objects are valid"""
    c = cls_(a[:-1], a[-1])
    return And(live(*a), _valid(c, c))


earliest = Least('rs:earliest object', DS + [M.V], lambda *a: And(good(*(a[:6] + (a[7],))), _oname(cls_(a[:6], a[7])) == a[6]),
                 lambda *a: z3.Select(a[1], a[7]))


def kept(*a):
    """definition j gives the first object of its name"""
    a, j = a[:-1], a[-1]
    return And(good(*(a + (j,))), earliest(*(a + (_oname(cls_(a, j)), j))) == j)


alive = Filter('rs:enabled', DS, live)
chosen = Filter('rs:loaded plugins', DS, kept)


def da(c):
    H = c.pre
    return [H.comp('dm'), H.lseq(_entries(c.a.group)), c.a.kind, c.a.base_class, H.llen(c.a.disabled), H.lseq(c.a.disabled)]


def so_far(c, H, r, n):
    a = da(c)
    t0 = c.pre.trn()
    return [
        ('number', H.llen(r) == chosen.count(*(a + [n]))),
        ('objects', M.forall(1, lambda i: Imp(ok(i, H.llen(r)), And(typed(H, H.at(r, i), 'PluginBase'), M.rid(
            H.at(r, i)) >= c.alloc0, classof(H.at(r, i)) == cls_(a, chosen.nth(*(a + [i]))), H.field(
                H.at(r, i), 'name') == _oname(classof(H.at(r, i))))), lambda i: [H.at(r, i)], [I])),
        ('instantiations', H.trn() == t0 + alive.count(*(a + [n]))),
        ('only enabled valid definitions', M.forall(1, lambda i: Imp(And(i >= 0, t0 + i < H.trn()), H.tr(t0 + i) == created(cls_(
            a, alive.nth(*(a + [i]))))), lambda i: [alive.nth(*(a + [i]))], [I]))]


@contract
class load(Contract):
    key = PU + 'load_plugins'
    types = {'kind': 'str', 'base_class': 'fun', 'group': 'str', 'disabled': 'list[str]'}
    result = 'list[PluginBase]'
    raises = {'InvalidPluginError': never, 'Exception': None}
    modifies = trace()
    callbacks = h_create

    def requires(c):
        l = _entries(c.a.group)
        return [('class', _class(c.a.base_class)), ('entry points', typed(c.pre, l, 'list[EntryPoint]')),
                ('definitions', c.forall(1, lambda j: Imp(ok(j, c.pre.llen(l)), And(_def(c.pre.at(l, j)) != ABSENT, typed(c.pre, _def(c.pre.at(l, j)), 'any'))), lambda j: [
                    _def(c.pre.at(l, j))], [I]))]

    def inv(c):
        a, names = da(c), c.l('name_set')
        return so_far(c, c.h, c.l('plugin_list'), c.idx) + [
            ('names', c.forall(1, lambda x: c.h.has(names, x) == (earliest(*(a + [x, c.idx])) < c.idx), lambda x: [
                c.h.get(names, x), earliest(*(a + [x, c.idx]))]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        return [('new', M.rid(c.res) >= c.alloc0)] + so_far(c, c.post, c.res, c.pre.llen(_entries(c.a.group)))

    def ens_exc(c, e):
        n = c.pre.llen(_entries(c.a.group))
        a, t0, H = da(c), c.pre.trn(), c.post
        return [('only enabled valid definitions', M.forall(1, lambda i: Imp(And(i >= 0, t0 + i < H.trn()), H.tr(t0 + i) == created(cls_(
            a, alive.nth(*(a + [i]))))), lambda i: [alive.nth(*(a + [i]))], [I]))]
