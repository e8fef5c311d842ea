"""Contracts for the types of configuration values (config_utils.py; P15, P14).

Of a type in general only its answers are known: whether it accepts a value (acc), which results its parsing of a
value may have (made) or whether it refuses the value (bad).  The contracts of the classes give these answers for
lists and dictionaries in terms of those of the element types.
"""
from contracts.world import *
from contracts.install import ok
from contracts.rules_merge import hashable
from contracts import config_dirs as CD
from pyvc.theory import Sum, Owner, Least, somewhere

I = M.I
SB = z3.BoolSort()
CU = CD.CU
CVE = 'ConfigValueError'
acc = z3.Function('rs:type accepts', M.V, M.V, SB)
bad = z3.Function('rs:type refuses YAML', M.V, M.V, SB)
made = z3.Function('rs:type makes', M.V, M.V, M.V, SB)
cbad = z3.Function('rs:type refuses argument', M.V, M.V, SB)
cmade = z3.Function('rs:type makes of argument', M.V, M.V, M.V, SB)
keyof = z3.Function('rs:type makes key', M.V, M.V, M.V)
db.fields['List'] = {'element_type': 'ConfigType'}
db.fields['Dict'] = {'key_type': 'ConfigType', 'value_type': 'ConfigType'}


def merging(H, t):
    return H.inst(t, 'MergingDict')


def emptydict(H, v):
    return And(H.isdict(v), H.dmap(v) == M.EMPTY)


def isnone(c, t, v):
    """v is the value of an unset item of type t, made for this"""
    return Ite(merging(c.pre, t), And(emptydict(c.post, v), M.rid(v) >= c.alloc0), v == NONE)


def isunset(H, t, v):
    return Ite(merging(H, t), emptydict(H, v), v == NONE)


method('ConfigType.unset_value', ['self'], 'any', lambda c: [('unset', isnone(c, c.a.self, c.res))])
method('ConfigType.is_unset', ['self', 'value'], 'bool', lambda c: [('unset', (c.res == M.vbool(True)) == isunset(c.pre, c.a.self, c.a.value))],
       allocs_=False)
method('ConfigType.verify', ['self', 'value'], 'any', lambda c: [('same value', c.res == c.a.value), ('accepted', acc(c.a.self, c.a.value))],
       raises_={CVE: lambda c: Not(acc(c.a.self, c.a.value))})
method('ConfigType.from_yaml', ['self', 'value'], 'any', lambda c: [
    ('accepted', acc(c.a.self, c.res)), ('made', And(made(c.a.self, c.a.value, c.res), Not(bad(c.a.self, c.a.value)))),
    ('unset', Imp(c.a.value == NONE, isnone(c, c.a.self, c.res))), ('dictionary', Imp(merging(c.pre, c.a.self), c.post.isdict(c.res))),
    ('list', Imp(And(c.pre.inst(c.a.self, 'List'), c.res != NONE), c.post.islist(c.res))),
    ('of immutable values', Imp(And(hashable(c.a.value), Not(merging(c.pre, c.a.self))), And(hashable(c.res), c.res == keyof(c.a.self, c.a.value))))],
    raises_={CVE: lambda c: bad(c.a.self, c.a.value)})
DOCS = z3.Const('rs:documents', I)        # documents exist before the operation


def docs(c):
    return [('documents', And(DOCS >= 0, DOCS <= c.alloc0))]


def wanted(H, t, v):
    """v is what the command line has for an option of type t: nothing, a text, or a list of texts if there may be many"""
    return Or(v == NONE, M.V.is_str(v), And(Or(H.inst(t, 'List'), H.inst(t, 'Dict')), typed(H, v, 'list[str]')))


@contract
class command_iface(Contract):
    key = 'iface:ConfigType.from_command_line'
    params = ['self', 'value']
    trusted = True
    raises = {CVE: lambda c: cbad(c.a.self, c.a.value)}

    def requires(c):
        return docs(c) + [('texts', wanted(c.pre, c.a.self, c.a.value))]

    def ensures(c):
        return [('accepted', acc(c.a.self, c.res)), ('made', And(cmade(c.a.self, c.a.value, c.res), Not(cbad(c.a.self, c.a.value)))),
                ('unset', Imp(c.a.value == NONE, isnone(c, c.a.self, c.res))), ('dictionary', Imp(merging(c.pre, c.a.self), c.post.isdict(c.res)))]


def union(H, G, r, top, bottom):
    """r has the entries of top, and those of bottom for other keys"""
    return And(H.isdict(r), M.forall(1, lambda k: H.get(r, k) == Ite(G.has(top, k), G.get(top, k), G.get(bottom, k)), lambda k: [H.get(r, k)]))


@contract
class merge_iface(Contract):
    key = 'iface:ConfigType.merge'
    params = ['self', 'top', 'bottom']
    trusted = True

    def requires(c):
        return [('dictionaries are merged', Imp(merging(c.pre, c.a.self), And(c.pre.isdict(c.a.top), c.pre.isdict(c.a.bottom))))]

    def ensures(c):
        return [('replaced unless unset', Imp(Not(merging(c.pre, c.a.self)), c.res == Ite(c.a.top == NONE, c.a.bottom, c.a.top))),
                ('entry by entry', Imp(merging(c.pre, c.a.self), And(union(c.post, c.pre, c.res, c.a.top, c.a.bottom), M.rid(c.res) >= c.alloc0)))]


# ------------------------------------------------------------------ base class
def plain(c):
    return [('not a merging type', Not(merging(c.pre, c.a.self)))]


def base(name, params, ensures_, cls='ConfigType', types_=None, requires_=plain, **k):
    @contract
    class m(Contract):
        key = CU + '%s.%s' % (cls, name)
        types = dict({p: 'any' for p in params}, self=cls, **(types_ or {}))
        result = k.get('result', 'any')
        raises = k.get('raises', {})
        requires = requires_

        def ensures(c):
            return ensures_(c)
    return m


base('unset_value', [], lambda c: [('unset', isnone(c, c.a.self, c.res))])
base('is_unset', ['value'], lambda c: [('unset', (c.res == M.vbool(True)) == isunset(c.pre, c.a.self, c.a.value))], result='bool', requires_=lambda c: [])
base('merge', ['top', 'bottom'], lambda c: [('replaced unless unset', c.res == Ite(c.a.top == NONE, c.a.bottom, c.a.top))])
base('verify', ['value'], lambda c: [('same value', c.res == c.a.value)])
base('from_yaml', ['value'], lambda c: [('verified', Or(c.a.value == NONE, acc(c.a.self, c.a.value))), ('same value', c.res == c.a.value)],
     raises={CVE: lambda c: And(c.a.value != NONE, Not(acc(c.a.self, c.a.value)))})


# ------------------------------------------------------------------ accepted values
def acc_string(H, t, v):
    return Or(v == NONE, M.V.is_str(v))


def acc_bool(H, t, v):
    return Or(v == NONE, M.V.is_bool(v))


def acc_list(H, t, v):
    return Or(v == NONE, And(H.islist(v), M.forall(1, lambda j: Imp(ok(j, H.llen(v)), acc(H.field(t, 'element_type'), H.at(v, j))), lambda j: [
        H.at(v, j)], [I])))


def entries(H, t, v):
    return M.forall(1, lambda k: Imp(H.has(v, k), And(acc(H.field(t, 'key_type'), k), acc(H.field(t, 'value_type'), H.get(v, k)))), lambda k: [
        H.get(v, k)])


def acc_dict(H, t, v):
    return Or(Ite(merging(H, t), emptydict(H, v), v == NONE), And(H.isdict(v), entries(H, t, v)))


def verify(cls, pred, inv=None, requires_=plain):
    @contract
    class v(Contract):
        key = CU + cls + '.verify'
        types = {'self': cls, 'value': 'any'}
        result = 'any'
        raises = {CVE: lambda c: Not(pred(c.pre, c.a.self, c.a.value))}
        requires = requires_
        loops = {0: staticmethod(inv)} if inv else {}

        def ensures(c):
            return [('same value', c.res == c.a.value), ('well typed', pred(c.pre, c.a.self, c.a.value))]
    return v


verify('String', acc_string)
verify('Boolean', acc_bool)
verify('List', acc_list, lambda c: [('accepted so far', c.forall(1, lambda j: Imp(ok(j, c.idx), acc(c.h.field(c.a.self, 'element_type'), c.elem(j))), lambda j: [
    c.elem(j)], [I]))])
verify('Dict', acc_dict, lambda c: [('accepted so far', c.forall(1, lambda k: Imp(c.done(k), And(acc(c.h.field(c.a.self, 'key_type'), k), acc(
    c.h.field(c.a.self, 'value_type'), c.h.get(c.a.value, k)))), lambda k: [c.done(k)]))], requires_=lambda c: [])


# ------------------------------------------------------------------ parsed values
@contract
class list_yaml(Contract):
    key = CU + 'List.from_yaml'
    types = {'self': 'List', 'value': 'any'}
    result = 'any'
    requires = plain

    def refused(c):
        G, v, e = c.pre, c.a.value, c.pre.field(c.a.self, 'element_type')
        return And(v != NONE, Or(Not(G.islist(v)), M.exists(1, lambda j: And(ok(j, G.llen(v)), bad(e, G.at(v, j))), [I])))
    raises = {CVE: lambda c: list_yaml.refused(c)}

    def inv(c):
        r, H, e = c.l('$acc'), c.h, c.pre.field(c.a.self, 'element_type')
        return [('number', H.llen(r) == c.idx), ('each made and accepted', c.forall(1, lambda j: Imp(ok(j, c.idx), And(
            made(e, c.elem(j), H.at(r, j)), acc(e, H.at(r, j)), Not(bad(e, c.elem(j))))), lambda j: [H.at(r, j)], [I])),
            ('none refused', c.forall(1, lambda j: Imp(ok(j, c.idx), Not(bad(e, c.elem(j)))), lambda j: [c.elem(j)], [I]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        G, H, v, r, e = c.pre, c.post, c.a.value, c.res, c.pre.field(c.a.self, 'element_type')
        return [('unset', Imp(v == NONE, r == NONE)), ('well typed', acc_list(H, c.a.self, r)),
                ('a list', Imp(v != NONE, And(G.islist(v), H.islist(r), H.llen(r) == G.llen(v), M.rid(r) >= c.alloc0))),
                ('elements', Imp(v != NONE, c.forall(1, lambda j: Imp(ok(j, G.llen(v)), made(e, G.at(v, j), H.at(r, j))), lambda j: [H.at(r, j)], [I])))]


@contract
class path_yaml(Contract):
    key = CU + 'Path.from_yaml'
    types = {'self': 'Path', 'value': 'any'}
    result = 'str?'
    requires = plain
    raises = {CVE: lambda c: Not(acc_string(c.pre, c.a.self, c.a.value))}
    use_inline = (CU + 'ConfigType.from_yaml',)

    def ensures(c):
        return [('well typed', acc_string(c.post, c.a.self, c.res)), ('expanded', c.res == Ite(c.a.value == NONE, NONE, CD._abs(c.a.value)))]


@contract
class dict_yaml(Contract):
    key = CU + 'Dict.from_yaml'
    types = {'self': 'Dict', 'value': 'any'}
    result = 'any'
    use_inline = (CU + 'ConfigType.unset_value', CU + 'MergingDict.unset_value')

    def requires(c):
        G, t = c.pre, c.a.self
        return [('keys are immutable', And(Not(merging(G, G.field(t, 'key_type'))), c.forall(1, lambda k: Imp(And(
            G.isdict(c.a.value), G.has(c.a.value, k)), hashable(k)), lambda k: [G.get(c.a.value, k)])))]

    def parts(c):
        return c.pre, c.a.value, c.pre.field(c.a.self, 'key_type'), c.pre.field(c.a.self, 'value_type')

    def refused(c):
        G, v, kt, vt = dict_yaml.parts(c)
        return And(v != NONE, Or(Not(G.isdict(v)), M.exists(1, lambda k: And(G.has(v, k), Or(bad(kt, k), bad(vt, G.get(v, k)))))))
    raises = {CVE: lambda c: dict_yaml.refused(c)}

    def content(c, H, r, done):
        G, v, kt, vt = dict_yaml.parts(c)
        return [('a dictionary', And(H.isdict(r), M.rid(r) >= c.pre.alloc)),
                ('each key', c.forall(1, lambda k: Imp(done(k), H.has(r, keyof(kt, k))), lambda k: [c.done(k) if hasattr(c, 'done') else G.get(v, k)])),
                ('each entry', c.forall(1, lambda q: Imp(H.has(r, q), M.exists(1, lambda k: And(done(k), keyof(kt, k) == q, made(
                    vt, G.get(v, k), H.get(r, q))))), lambda q: [H.get(r, q)])),
                ('accepted', entries(H, c.a.self, r))]

    def inv(c):
        G, v, kt, vt = dict_yaml.parts(c)
        return dict_yaml.content(c, c.h, c.l('result'), c.done) + [
            ('none refused', c.forall(1, lambda k: Imp(c.done(k), Not(Or(bad(kt, k), bad(vt, G.get(v, k))))), lambda k: [c.done(k)]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        G, v, kt, vt = dict_yaml.parts(c)
        return [('unset', Imp(v == NONE, isnone(c, c.a.self, c.res))), ('well typed', acc_dict(c.post, c.a.self, c.res))] + [
            (l, Imp(v != NONE, b)) for l, b in dict_yaml.content(c, c.post, c.res, lambda k: G.has(v, k))]


@contract
class merging_unset(Contract):
    key = CU + 'MergingDict.unset_value'
    types = {'self': 'MergingDict'}
    result = 'any'

    def ensures(c):
        return [('unset', isnone(c, c.a.self, c.res))]


@contract
class merging_merge(Contract):
    key = CU + 'MergingDict.merge'
    types = {'self': 'MergingDict', 'top': 'dict', 'bottom': 'dict'}
    result = 'any'

    def ensures(c):
        return [('entry by entry', And(union(c.post, c.pre, c.res, c.a.top, c.a.bottom), M.rid(c.res) >= c.alloc0))]


# ------------------------------------------------------------------ command line values
_ybad = z3.Function('rs:invalid YAML', M.V, SB)
_ydoc = z3.Function('rs:YAML value', M.V, M.V)
LL = M.comp_sort('ll')


def within(v):
    return Imp(M.V.is_ref(v), And(M.V.r(v) >= 0, M.V.r(v) < DOCS))


_d = z3.Const('d!yv', M.V)
M.OPAQUE['rs:YAML value'] = [z3.ForAll([_d], And(within(_ydoc(_d)), _ydoc(_d) != ABSENT), patterns=[_ydoc(_d)])]


def h_yaml(ex, st, args, kw, X, node):
    d = ex.sv(st, args[0]).t
    st = ex.need(st, M.V.is_str(d), X, 'AttributeError')
    if st is None:
        return []
    x = st.copy()
    ex.raise_(x, 'YAMLError', X)
    x.assume(_ybad(d))
    v = _ydoc(d)
    st.assume(Not(_ybad(d)), v != ABSENT, within(v), Imp(st.H.isdict(v), M.forall(1, lambda k: Imp(st.H.has(v, k), hashable(k)), lambda k: [st.H.get(v, k)])))
    return [(st, E.SV(v, ('any',)))]


db.externals['xylem.yaml_utils:load_yaml'] = h_yaml


def command(cls, refused, results, extra=(), result_='any'):
    @contract
    class m(Contract):
        key = CU + cls + '.from_command_line'
        types = {'self': cls, 'value': 'str?'}
        result = result_
        raises = {CVE: refused}

        def requires(c):
            return docs(c) + plain(c)

        def ensures(c):
            return results(c)
    return m


command('ConfigType', lambda c: And(c.a.value != NONE, Or(_ybad(c.a.value), bad(c.a.self, _ydoc(c.a.value)))), lambda c: [
    ('unset', Imp(c.a.value == NONE, c.res == NONE)),
    ('parsed', Imp(c.a.value != NONE, And(made(c.a.self, _ydoc(c.a.value), c.res), acc(c.a.self, c.res))))])
command('String', lambda c: And(c.a.value != NONE, bad(c.a.self, c.a.value)), lambda c: [
    ('unset', Imp(c.a.value == NONE, c.res == NONE)),
    ('as it is', Imp(c.a.value != NONE, And(made(c.a.self, c.a.value, c.res), acc(c.a.self, c.res))))])


def bracketed(s, a, b):
    return CD.cat(STR(a), s, STR(b))


def lparse(s):
    """the list given by a text, with or without brackets"""
    return parsed_by(_listof, s, '[', ']', M.K_LIST)


_listof = z3.Function('rs:list of text', M.V, M.V)
_dictof = z3.Function('rs:dictionary of text', M.V, M.V)


def parsed_by(f, s, a, b, kind):
    return part(s, a, b, kind)[0], f(s)


def part(s, a, b, kind):
    full = lambda t: And(Not(_ybad(t)), M.V.is_ref(_ydoc(t)), M.kindf(M.V.r(_ydoc(t))) == kind)
    t = bracketed(s, a, b)
    return Or(full(s), full(t)), Ite(full(s), _ydoc(s), _ydoc(t))


for _f, _a, _b, _k in ((_listof, '[', ']', M.K_LIST), (_dictof, '{', '}', M.K_DICT)):
    M.OPAQUE[_f.name()] = [z3.ForAll([_d], _f(_d) == part(_d, _a, _b, _k)[1], patterns=[_f(_d)])] + M.OPAQUE['rs:YAML value']
lsize = lambda ll, s, j: z3.Select(ll, M.V.r(lparse(z3.Select(s, j))[1]))
loff = Sum('rs:elements of texts before', [LL, M.SeqS], lsize)
lown = Owner('rs:text of element', loff)


LE = M.comp_sort('le')
_texts = z3.Function('rs:texts of argument', LE, M.V, M.SeqS)      # one text or the elements of a list
_l = z3.Const('le!ta', LE)
M.OPAQUE['rs:texts of argument'] = [z3.ForAll([_l, _d], _texts(_l, _d) == Ite(M.V.is_str(_d), z3.K(I, _d), z3.Select(_l, M.V.r(_d))), patterns=[_texts(_l, _d)])]


@contract
class list_command(Contract):
    key = CU + 'List.from_command_line'
    types = {'self': 'List', 'value': 'any'}
    result = 'any'

    def requires(c):
        v = c.a.value
        return docs(c) + plain(c) + [('texts', Or(v == NONE, M.V.is_str(v), typed(c.pre, v, 'list[str]')))]

    def one(c):
        return M.V.is_str(c.a.value)

    def texts(c):
        """number of texts, sequence"""
        v = c.a.value
        return Ite(list_command.one(c), 1, c.pre.llen(v)), _texts(c.pre.comp('le'), v)

    def elem(c, k):
        n, s = list_command.texts(c)
        a = [c.pre.comp('ll'), s]
        i = lown(*(a + [k]))
        return c.pre.at(lparse(z3.Select(s, i))[1], k - loff(*(a + [i])))

    def total(c):
        n, s = list_command.texts(c)
        return loff(c.pre.comp('ll'), s, n)

    def refused(c):
        n, s = list_command.texts(c)
        e = c.pre.field(c.a.self, 'element_type')
        return And(c.a.value != NONE, Or(somewhere(lambda i: And(ok(i, n), Not(lparse(z3.Select(s, i))[0])), lambda i: z3.Select(s, i)),
                                         M.exists(1, lambda k: And(ok(k, list_command.total(c)), bad(e, list_command.elem(c, k))), [I])))
    raises = {CVE: lambda c: list_command.refused(c)}

    def inv(c):
        r, H = c.l('result'), c.h
        n, s = list_command.texts(c)
        a = [c.pre.comp('ll'), s]
        return [('number of texts', And(c.n == n)), ('the texts', c.forall(1, lambda i: Imp(ok(i, n), c.elem(i) == z3.Select(s, i)), lambda i: [c.elem(i)], [I])),
                ('number', H.llen(r) == loff(*(a + [c.idx]))),
                ('lists', c.forall(1, lambda i: Imp(ok(i, c.idx), lparse(z3.Select(s, i))[0]), lambda i: [z3.Select(s, i)], [I])),
                ('elements', c.forall(1, lambda k: Imp(ok(k, H.llen(r)), H.at(r, k) == list_command.elem(c, k)), lambda k: [H.at(r, k)], [I]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        H, r, e = c.post, c.res, c.pre.field(c.a.self, 'element_type')
        return [('unset', Imp(c.a.value == NONE, r == NONE)), ('well typed', acc_list(H, c.a.self, r)),
                ('all elements', Imp(c.a.value != NONE, And(H.islist(r), H.llen(r) == list_command.total(c)))),
                ('made', Imp(c.a.value != NONE, c.forall(1, lambda k: Imp(ok(k, H.llen(r)), made(e, list_command.elem(c, k), H.at(r, k))), lambda k: [
                    H.at(r, k)], [I])))]


DM = M.comp_sort('dm')


def dparse(s):
    """the dictionary given by a text, with or without braces"""
    return parsed_by(_dictof, s, '{', '}', M.K_DICT)


_entry = lambda dm, s, k, j: z3.Select(z3.Select(dm, M.V.r(dparse(z3.Select(s, j))[1])), k)
dfirst = Least('rs:first text with key', [DM, M.SeqS, M.V], lambda dm, s, k, j: _entry(dm, s, k, j) != ABSENT, lambda dm, s, k, j: z3.Select(s, j))


@contract
class dict_command(Contract):
    key = CU + 'Dict.from_command_line'
    types = {'self': 'Dict', 'value': 'any'}
    result = 'any'
    use_inline = dict_yaml.use_inline

    def requires(c):
        v = c.a.value
        return docs(c) + [('keys are immutable', Not(merging(c.pre, c.pre.field(c.a.self, 'key_type')))),
                          ('texts', Or(v == NONE, M.V.is_str(v), typed(c.pre, v, 'list[str]')))]

    def parts(c):
        G = c.pre
        n, s = list_command.texts(c)
        return G, n, s, G.field(c.a.self, 'key_type'), G.field(c.a.self, 'value_type'), lambda k, m: dfirst(G.comp('dm'), s, k, m), lambda k, j: _entry(
            G.comp('dm'), s, k, j)

    def refused(c):
        G, n, s, kt, vt, f, e = dict_command.parts(c)
        bads = lambda k: Or(bad(kt, k), bad(vt, e(k, f(k, n))))
        twice = lambda i, k: And(e(k, i) != ABSENT, f(k, i) < i)
        return And(c.a.value != NONE, Or(somewhere(lambda i: And(ok(i, n), Not(dparse(z3.Select(s, i))[0])), lambda i: z3.Select(s, i)),
                                         M.exists(1, lambda k: And(f(k, n) < n, bads(k)), pats=lambda k: [f(k, n)]),
                                         M.exists(2, lambda i, k: And(i < n, twice(i, k)), [I, M.V], pats=lambda i, k: [f(k, i)])))
    raises = {CVE: lambda c: dict_command.refused(c)}

    def all_once(c, m):
        G, n, s, kt, vt, f, e = dict_command.parts(c)
        return [('dictionaries', c.forall(1, lambda i: Imp(ok(i, m), dparse(z3.Select(s, i))[0]), lambda i: [z3.Select(s, i)], [I])),
                ('each key in one text', c.forall(2, lambda i, k: Imp(And(ok(i, m), e(k, i) != ABSENT), f(k, i) == i), lambda i, k: [e(k, i)], [I, M.V]))]

    def inv(c):
        r, H = c.l('result'), c.h
        G, n, s, kt, vt, f, e = dict_command.parts(c)
        return [('number of texts', And(c.n == n)), ('the texts', c.forall(1, lambda i: Imp(ok(i, n), c.elem(i) == z3.Select(s, i)), lambda i: [c.elem(i)], [I])),
                ('new', M.rid(r) >= G.alloc),
                ('entries', c.forall(1, lambda k: H.get(r, k) == Ite(f(k, c.idx) < c.idx, e(k, f(k, c.idx)), ABSENT), lambda k: [H.get(r, k)])),
                ('immutable keys', c.forall(1, lambda k: Imp(H.has(r, k), hashable(k)), lambda k: [H.get(r, k)]))] + dict_command.all_once(c, c.idx)
    loops = {0: staticmethod(inv)}

    def hint(c):
        G, n, s, kt, vt, f, e = dict_command.parts(c)
        i = z3.simplify(c.idx - 1)
        return [('keys of the last text', c.forall(1, lambda k: Imp(e(k, i) != ABSENT, f(k, i) == i), lambda k: [e(k, i)]))]
    loophints = {0: staticmethod(hint)}

    def ensures(c):
        G, n, s, kt, vt, f, e = dict_command.parts(c)
        H, r = c.post, c.res
        out = [('a dictionary', And(H.isdict(r), M.rid(r) >= G.alloc)),
               ('each key', c.forall(1, lambda k: Imp(f(k, n) < n, H.has(r, keyof(kt, k))), lambda k: [f(k, n)])),
               ('each entry', c.forall(1, lambda q: Imp(H.has(r, q), M.exists(1, lambda k: And(f(k, n) < n, keyof(kt, k) == q, made(vt, e(k, f(k, n)), H.get(
                   r, q))))), lambda q: [H.get(r, q)])),
               ('accepted', entries(H, c.a.self, r))] + dict_command.all_once(c, n)
        return [('unset', Imp(c.a.value == NONE, isnone(c, c.a.self, r))), ('well typed', acc_dict(H, c.a.self, r))] + [
            (l, Imp(c.a.value != NONE, b)) for l, b in out]
