"""Contracts for describing configuration items (config_utils.py; P23)."""
from contracts.config_desc import *
from pyvc import calls, types as T
from pyvc.theory import inlist

CDE = 'ConfigDescriptionError'
ITEM = ('name', 'help', 'type', 'default', 'command_line', 'command_line_argument', 'command_line_metavar')
DD = STR('--')
_mergecls = z3.Function('rs:creates merging type', M.V, SB)


def isclass(t):
    return And(M.V.is_fun(t), B.uf_bool('isinst:type', t))


def dashed(n):
    return B.uf_str('replace', B.uf_str('replace', n, STR('_'), STR('-')).t, SL, STR('-')).t


_tail2 = z3.Function('slice:2::', M.S, M.S)


def stripped(n):
    return Ite(B.uf_bool('startswith', n, DD), M.V.str(_tail2(M.V.s(n))), n)


def text(name, value):
    @contract
    class fn(Contract):
        key = CU + name
        types = {'name': 'str'}
        result = 'str'

        def ensures(c):
            return [('text', c.res == value(c.a.name))]
    return fn


text('dashify', dashed)
text('strip_leading_dashdash', stripped)
method('ConfigType.command_line_default_metavar', ['self'], 'any', lambda c: [])


def typelike(H, t, merges=None):
    return Or(typed(H, t, 'ConfigType'), isclass(t))


def h_new_type(ex, st, args, kw, X, node):
    if len(args) > 1 or kw:
        raise M.Unsupported('type with arguments')
    o = E.SV(ex.alloc(st, 'obj', 'ConfigType'), ('obj', 'ConfigType'))
    st.assume(merging(st.H, o.t) == _mergecls(args[0].t))
    return [(st, o)]


def truthy(v):
    return And(v != NONE, v != STR(''))


@contract
class item_init(Contract):
    key = CU + 'ConfigItem.__init__'
    types = {'self': 'ConfigItem', 'name': 'str', 'help': 'any', 'type': 'any', 'default': 'any', 'command_line': 'bool?', 'command_line_argument': 'str?',
             'command_line_metavar': 'any'}
    result = 'none'
    callbacks = h_new_type
    modifies = {'f.' + f: (lambda c, r: r == M.rid(c.a.self)) for f in ITEM}

    def mg(c):
        return Ite(isclass(c.a.type), _mergecls(c.a.type), merging(c.pre, c.a.type))

    def requires(c):
        return [('a type or class', typelike(c.pre, c.a.type)), ('default dictionaries', Imp(And(c.a.default != NONE, item_init.mg(c)), c.pre.isdict(c.a.default)))]

    def ensures(c):
        a, H = c.a, c.post
        f = lambda n: H.field(a.self, n)
        x = Ite(a.command_line == NONE, M.vbool(Or(a.command_line_argument != NONE, a.command_line_metavar != NONE)), a.command_line)
        return [('name and help', And(f('name') == a.name, f('help') == a.help)),
                ('type', And(typed(H, f('type'), 'ConfigType'), Imp(Not(isclass(a.type)), f('type') == a.type), merging(H, f('type')) == item_init.mg(c))),
                ('default', Ite(a.default != NONE, f('default') == a.default, Ite(item_init.mg(c), And(emptydict(H, f('default')), M.rid(
                    f('default')) >= c.alloc0), f('default') == NONE))),
                ('exposed', And(M.V.is_bool(f('command_line')), f('command_line') == x)),
                ('argument', And(typed(H, f('command_line_argument'), 'str?'), f('command_line_argument') == Ite(truthy(a.command_line_argument), stripped(
                    a.command_line_argument), Ite(x == M.vbool(True), dashed(a.name), a.command_line_argument))))]


# ------------------------------------------------------------------ additions
def h_item(ex, st, args, kw, X, node):
    """ConfigItem(name, *args, **kwargs) with further arguments as ConfigItem takes them"""
    opaque = '**' in kw or any(isinstance(a, tuple) for a in args)
    if not opaque:
        raise M.Unsupported('ConfigItem with known arguments')
    if len(args) != 2 or not isinstance(args[1], tuple) or set(kw) != {'**'}:
        raise M.Unsupported('ConfigItem with other arguments')
    ct = db.contracts[item_init.key]
    o = E.SV(ex.alloc(st, 'obj', 'ConfigItem'), ('obj', 'ConfigItem'))
    vals = [o, args[0]]
    terms = {'self': o.t, 'name': ex.sv(st, args[0]).t}
    for p in ITEM[1:]:
        v = M.fconst('arg.' + p, M.V)
        st.assume(v != ABSENT, Imp(M.V.is_ref(v), And(M.rid(v) >= 0, M.rid(v) < ex.top.pre.pre_heap.alloc)), typed(st.H, v, ct.types[p]))
        vals.append(E.SV(v, T.parse(ct.types[p])))
        terms[p] = v
    c = E.Ctx(pre=st.H, h=st.H, a=calls.Args(terms), M=M, alloc0=st.alloc, ex=ex)
    for l, b in ct.requires(c):
        st.assume(b)
    fi = ex.repo.find_method('ConfigItem', '__init__')
    return [(s, o) for s, _ in calls.apply_contract(ex, ct, vals, st, X, calls.params_of(fi, ct))]


db.externals['class:ConfigItem'] = h_item


def apart(H, d):
    """the containers of a description are different objects"""
    it, gs, ar = [H.field(d, f) for f in ('items', 'groups', 'command_line_arguments')]
    l = H.field(d, 'itemlist')
    return [('different containers', And(it != gs, it != ar, gs != ar)),
            ('own groups', M.forall(1, lambda g: Imp(H.has(gs, g), And(*[H.get(gs, g) != x for x in (it, gs, ar)])), lambda g: [H.get(gs, g)])),
            ('different groups', M.forall(2, lambda g, h: Imp(And(H.has(gs, g), H.has(gs, h), g != h), H.get(gs, g) != H.get(gs, h)), lambda g, h: [
                z3.MultiPattern(H.get(gs, g), H.get(gs, h))]))]


def arguments(H, d):
    it, ar = H.field(d, 'items'), H.field(d, 'command_line_arguments')
    l = H.field(d, 'itemlist')
    cla = lambda i: H.field(i, 'command_line_argument')
    return [('typed', And(typed(H, ar, 'dict[any,ConfigItem]'), typed(H, l, 'list[ConfigItem]'))),
            ('names', M.forall(1, lambda n: Imp(H.has(it, n), And(M.V.is_str(n), H.field(H.get(it, n), 'name') == n)), lambda n: [H.get(it, n)])),
            ('exposed items', M.forall(1, lambda n: Imp(And(H.has(it, n), exposed(H, H.get(it, n))), And(H.has(ar, cla(H.get(it, n))), H.get(
                ar, cla(H.get(it, n))) == H.get(it, n))), lambda n: [H.get(it, n)])),
            ('items of arguments', M.forall(1, lambda a: Imp(H.has(ar, a), And(exposed(H, H.get(ar, a)), cla(H.get(ar, a)) == a, M.V.is_str(a), H.has(it, H.field(
                H.get(ar, a), 'name')), H.get(it, H.field(H.get(ar, a), 'name')) == H.get(ar, a))), lambda a: [H.get(ar, a)])),
            ('all in the list', M.forall(1, lambda n: Imp(H.has(it, n), inlist(H, l, H.get(it, n))), lambda n: [H.get(it, n)])),
            ('only items in the list', M.forall(1, lambda j: Imp(ok(j, H.llen(l)), And(H.has(it, H.field(H.at(l, j), 'name')), H.get(it, H.field(
                H.at(l, j), 'name')) == H.at(l, j))), lambda j: [H.at(l, j)], [I]))]


def consistent(c, H, d):
    return wfdesc(c, H, d) + apart(H, d) + arguments(H, d)


@contract
class desc_init(Contract):
    key = CU + 'ConfigDescription.__init__'
    types = {'self': 'ConfigDescription', 'namespace': 'str'}
    result = 'none'
    modifies = {'f.' + f: (lambda c, r: r == M.rid(c.a.self)) for f in ('namespace', 'itemlist', 'items', 'groups', 'command_line_arguments')}

    def ensures(c):
        H, d = c.post, c.a.self
        f = lambda n: H.field(d, n)
        return [('empty', And(*[And(emptydict(H, f(n)), M.rid(f(n)) >= c.alloc0) for n in ('items', 'groups', 'command_line_arguments')])),
                ('empty list', And(H.llen(f('itemlist')) == 0, M.rid(f('itemlist')) >= c.alloc0))] + consistent(c, H, d)


@contract
class add(Contract):
    key = CU + 'ConfigDescription.add'
    types = {'self': 'ConfigDescription', 'name': 'str', 'args': 'list', 'kwargs': 'any'}
    result = 'none'

    def parts(c, H):
        return [H.field(c.a.self, f) for f in ('items', 'groups', 'command_line_arguments', 'itemlist')]

    def requires(c):
        return consistent(c, c.pre, c.a.self)

    def taken(c):
        it, gs, ar, l = add.parts(c, c.pre)
        n = c.a.name
        return Or(c.pre.has(it, n), c.pre.has(gs, n), And(slash(n), c.pre.has(it, grp(n))))
    raises = {CDE: None}

    def region(c, r):
        it, gs, ar, l = add.parts(c, c.pre)
        n = c.a.name
        return Or(r == M.rid(it), r == M.rid(gs), r == M.rid(ar), And(slash(n), c.pre.has(gs, grp(n)), r == M.rid(c.pre.get(gs, grp(n)))))
    modifies = {'dm': lambda c, r: add.region(c, r), 'll': lambda c, r: r == M.rid(add.parts(c, c.pre)[3]), 'le': lambda c, r: r == M.rid(add.parts(c, c.pre)[3])}

    def new(c):
        it, gs, ar, l = add.parts(c, c.pre)
        return c.post.get(it, c.a.name)

    def ens_exc(c, exc):
        G, H = c.pre, c.post
        it, gs, ar, l = add.parts(c, G)
        n = c.a.name
        i = H.get(it, n)
        return [('nothing added if the name or group is taken', Imp(add.taken(c), And(*[H.dmap(x) == G.dmap(x) for x in (it, gs, ar)] + [H.llen(l) == G.llen(l)]))),
                ('else the argument is taken', Imp(Not(add.taken(c)), And(exposed(H, i), G.has(ar, H.field(i, 'command_line_argument')), H.dmap(ar) == G.dmap(ar))))]

    def ensures(c):
        G, H, n = c.pre, c.post, c.a.name
        it, gs, ar, l = add.parts(c, G)
        i = H.get(it, n)
        arg = H.field(i, 'command_line_argument')
        return [('not taken', And(Not(add.taken(c)), Imp(exposed(H, i), Not(G.has(ar, arg))))),
                ('new item', And(typed(H, i, 'ConfigItem'), M.rid(i) >= c.alloc0, H.field(i, 'name') == n)),
                ('items', c.forall(1, lambda k: Imp(k != n, H.get(it, k) == G.get(it, k)), lambda k: [H.get(it, k)])),
                ('in its group', Imp(slash(n), And(H.has(gs, grp(n)), H.get(H.get(gs, grp(n)), sub(n)) == i))),
                ('by its argument', Imp(exposed(H, i), H.get(ar, arg) == i)),
                ('arguments', c.forall(1, lambda k: Imp(Not(And(exposed(H, i), k == arg)), H.get(ar, k) == G.get(ar, k)), lambda k: [H.get(ar, k)]))
                ] + consistent(c, H, c.a.self)
