"""Contracts for configuration dictionaries and their description (config_utils.py; P14, P15, P23).

A description has items by full name and by group and subname.  split_group gives the group (grp) and subname (sub) of
a name with a separator.
"""
from contracts.world import *
from contracts.install import ok
from contracts import config_types as CT
from contracts.config_types import acc, bad, made, cbad, cmade, merging, emptydict, CU, CVE, SB, I
from pyvc.theory import Least, somewhere

DM = M.comp_sort('dm')
db.fields['ConfigDescription'] = {'namespace': 'str', 'itemlist': 'list[ConfigItem]', 'items': 'dict[str,ConfigItem]',
                                  'groups': 'dict[str,dict[str,ConfigItem]]', 'command_line_arguments': 'dict[str,ConfigItem]'}
db.fields['ConfigItem'] = {'name': 'str', 'help': 'any', 'type': 'ConfigType', 'default': 'any', 'command_line': 'bool',
                           'command_line_argument': 'str?', 'command_line_metavar': 'any'}
SL = STR('/')
strin = z3.Function('strin', M.S, M.S, SB)
_rev = z3.Function('slice:::-1', M.S, M.S)
rev = lambda v: M.V.str(_rev(M.V.s(v)))
grp = z3.Function('rs:group of name', M.V, M.V)
sub = z3.Function('rs:subname of name', M.V, M.V)
whole = z3.Function('rs:name of group and subname', M.V, M.V, M.V)


def slash(n):
    return strin(M.V.s(SL), M.V.s(n))


def cut(n):
    """the parts of a name before and after its last separator"""
    r = rev(n)
    return rev(B.uf_str('part.tail', r, SL).t), rev(B.uf_str('part.head', r, SL).t)


_n = z3.Const('n!cd', M.V)
# the parts before and after the last separator determine a name and differ from it; reversing a text keeps its characters
M.OPAQUE['rs:group of name'] = [z3.ForAll([_n], Imp(And(M.V.is_str(_n), slash(_n)), And(whole(grp(_n), sub(_n)) == _n, grp(_n) != _n, M.V.is_str(grp(_n)), M.V.is_str(
    sub(_n)))), patterns=[grp(_n)])]
_x = z3.Const('x!cd', M.S)
_REV = [z3.ForAll([_x], And(grp(M.V.str(_x)) == cut(M.V.str(_x))[0], sub(M.V.str(_x)) == cut(M.V.str(_x))[1], strin(M.V.s(SL), _rev(_x)) == strin(
    M.V.s(SL), _x)), patterns=[_rev(_x)])]


@contract
class split_group(Contract):
    key = CU + 'split_group'
    types = {'name': 'str'}
    result = 'tuple[str,str]'

    def requires(c):
        return [('a separator', slash(c.a.name))]

    def entry(c):
        return [('parts', b) for b in _REV]

    def ensures(c):
        return [('group and subname', c.res == M.vtuple([grp(c.a.name), sub(c.a.name)]))]


# ------------------------------------------------------------------ descriptions
def F(H, d, f):
    return H.field(d, f)


def itype(H, d, n):
    return H.field(H.get(H.field(d, 'items'), n), 'type')


def wfdesc(c, H, d):
    it, gs = H.field(d, 'items'), H.field(d, 'groups')
    return [('items', typed(H, it, 'dict[str,ConfigItem]')), ('groups', typed(H, gs, 'dict[str,dict[str,ConfigItem]]')),
            ('default values', c.forall(1, lambda n: Imp(H.has(it, n), H.field(H.get(it, n), 'default') != ABSENT), lambda n: [H.get(it, n)])),
            ('default dictionaries', c.forall(1, lambda n: Imp(And(H.has(it, n), merging(H, itype(H, d, n))), H.isdict(H.field(H.get(it, n), 'default'))), lambda n: [
                H.get(it, n)])),
            ('items of groups', c.forall(1, lambda n: Imp(And(H.has(it, n), slash(n)), And(H.has(gs, grp(n)), H.get(
                H.get(gs, grp(n)), sub(n)) == H.get(it, n))), lambda n: [H.get(it, n)])),
            ('groups of items', c.forall(2, lambda g, s: Imp(And(H.has(gs, g), H.has(H.get(gs, g), s)), And(
                H.has(it, whole(g, s)), slash(whole(g, s)), grp(whole(g, s)) == g, sub(whole(g, s)) == s, H.get(it, whole(g, s)) == H.get(
                    H.get(gs, g), s))), lambda g, s: [H.get(H.get(gs, g), s)])),
            ('groups have items', c.forall(1, lambda g: Imp(H.has(gs, g), M.exists(1, lambda n: And(H.has(it, n), slash(n), grp(n) == g))), lambda g: [
                H.get(gs, g)])),
            ('groups are no items', c.forall(1, lambda g: Imp(H.has(gs, g), Not(H.has(it, g))), lambda g: [H.get(gs, g)]))]


def plainitem(H, d, n):
    return And(H.has(H.field(d, 'items'), n), Not(slash(n)))


_cv = z3.Function('rs:item value', DM, M.V, M.V, M.V)
_get = lambda dm, o, k: z3.Select(z3.Select(dm, M.V.r(o)), k)
_c = (z3.Const('dm!cv', DM), z3.Const('s!cv', M.V), z3.Const('n!cv', M.V))
M.OPAQUE['rs:item value'] = [z3.ForAll(list(_c), _cv(*_c) == Ite(slash(_c[2]), _get(_c[0], _get(_c[0], _c[1], grp(_c[2])), sub(_c[2])), _get(*_c)), patterns=[_cv(*_c)])]


def val(H, s, n):
    """value of item n in configuration s"""
    return _cv(H.comp('dm'), s, n)


def exactly(c, G, H, d, s):
    """configuration s has the described items and groups, and nothing else"""
    it, gs = G.field(d, 'items'), G.field(d, 'groups')
    return [('keys', c.forall(1, lambda k: H.has(s, k) == Or(G.has(gs, k), plainitem(G, d, k)), lambda k: [H.get(s, k)])),
            ('described', c.forall(1, lambda k: Imp(plainitem(G, d, k), H.has(s, k)), lambda k: [G.get(it, k)])),
            ('groups', c.forall(1, lambda g: Imp(G.has(gs, g), And(H.has(s, g), groupdict(H, H.get(s, g)), M.rid(H.get(s, g)) >= c.pre.alloc)), lambda g: [
                G.get(gs, g)])),
            ('keys of groups', c.forall(2, lambda g, k: Imp(G.has(gs, g), H.has(H.get(s, g), k) == G.has(G.get(gs, g), k)), lambda g, k: [
                H.get(H.get(s, g), k)]))]


def groupdict(H, v):
    return typed(H, v, 'ConfigDict')


@contract
class defaults(Contract):
    key = CU + 'config_from_defaults'
    types = {'description': 'ConfigDescription'}
    result = 'ConfigDict'

    def requires(c):
        return wfdesc(c, c.pre, c.a.description)

    def inv(c):
        G, H, d, s = c.pre, c.h, c.a.description, c.l('result')
        it, gs = G.field(d, 'items'), G.field(d, 'groups')
        return [('new', And(M.rid(s) >= G.alloc)),
                ('keys', c.forall(1, lambda k: Imp(H.has(s, k), Or(And(c.done(k), Not(slash(k))), G.has(gs, k))), lambda k: [H.get(s, k)])),
                ('group', c.forall(1, lambda g: Imp(And(G.has(gs, g), H.has(s, g)), And(groupdict(H, H.get(s, g)), M.rid(H.get(s, g)) >= G.alloc, H.get(
                    s, g) != s)), lambda g: [H.get(s, g)])),
                ('different groups', c.forall(2, lambda g, h: Imp(And(G.has(gs, g), G.has(gs, h), H.has(s, g), H.has(s, h), g != h), H.get(s, g) != H.get(
                    s, h)), lambda g, h: [z3.MultiPattern(H.get(s, g), H.get(s, h))])),
                ('keys of groups', c.forall(2, lambda g, k: Imp(And(G.has(gs, g), H.has(s, g), H.has(H.get(s, g), k)), And(G.has(G.get(gs, g), k), c.done(whole(
                    g, k)))), lambda g, k: [H.get(H.get(s, g), k)])),
                ('values', c.forall(1, lambda n: Imp(c.done(n), And(Imp(slash(n), H.has(s, grp(n))), val(H, s, n) == G.field(
                    G.get(it, n), 'default'))), lambda n: [c.done(n)]))]
    loops = {0: staticmethod(inv)}

    def ensures(c):
        G, H, d, s = c.pre, c.post, c.a.description, c.res
        it = G.field(d, 'items')
        return [('new', M.rid(s) >= c.alloc0)] + exactly(c, G, H, d, s) + [
            ('default values', c.forall(1, lambda n: Imp(G.has(it, n), val(H, s, n) == G.field(G.get(it, n), 'default')), lambda n: [G.get(it, n)]))]


# ------------------------------------------------------------------ merging
def source(c, H, d, s):
    """configuration s has all described items and groups"""
    it, gs = H.field(d, 'items'), H.field(d, 'groups')
    return And(typed(H, s, 'ConfigDict'),
               c.forall(1, lambda g: Imp(H.has(gs, g), And(typed(H, H.get(s, g), 'ConfigDict'))), lambda g: [H.get(gs, g)]),
               c.forall(1, lambda n: Imp(H.has(it, n), And(val(H, s, n) != ABSENT, Imp(merging(H, itype(H, d, n)), H.isdict(val(H, s, n))))), lambda n: [
                   H.get(it, n)]))


@contract
class copied(Contract):
    key = CU + 'copy_conifg_dict'
    types = {'description': 'ConfigDescription', 'config': 'ConfigDict'}
    result = 'ConfigDict'

    def requires(c):
        return wfdesc(c, c.pre, c.a.description) + [('complete', source(c, c.pre, c.a.description, c.a.config))]

    def content(c, H, s, done):
        G, d, t = c.pre, c.a.description, c.a.config
        gs = G.field(d, 'groups')
        return [('new', M.rid(s) >= G.alloc), ('new groups', c.forall(1, lambda g: Imp(done(g), And(groupdict(H, H.get(s, g)), M.rid(H.get(s, g)) >= G.alloc, H.get(
            s, g) != s, H.dmap(H.get(s, g)) == G.dmap(G.get(t, g)))), lambda g: [H.get(s, g), G.get(gs, g)])),
            ('different groups', c.forall(2, lambda g, h: Imp(And(done(g), done(h), g != h), H.get(s, g) != H.get(s, h)), lambda g, h: [
                z3.MultiPattern(H.get(s, g), H.get(s, h))])),
            ('others', c.forall(1, lambda k: Imp(Not(done(k)), H.get(s, k) == G.get(t, k)), lambda k: [H.get(s, k)]))]

    def inv(c):
        return copied.content(c, c.h, c.l('result'), c.done)
    loops = {0: staticmethod(inv)}

    def ensures(c):
        return copied.content(c, c.post, c.res, lambda g: c.pre.has(c.pre.field(c.a.description, 'groups'), g))


# value of item n in source number j, where source 0 is the first argument
sv = z3.Function('rs:value in source', DM, M.V, M.SeqS, M.V, I, M.V)
_a = (z3.Const('dm!sv', DM), z3.Const('t!sv', M.V), z3.Const('s!sv', M.SeqS), z3.Const('n!sv', M.V), z3.Const('j!sv', I))
M.OPAQUE['rs:value in source'] = [z3.ForAll(list(_a), sv(*_a) == _cv(_a[0], Ite(_a[4] <= 0, _a[1], z3.Select(_a[2], _a[4] - 1)), _a[3]), patterns=[sv(*_a)])]
firstset = Least('rs:first source setting', [DM, M.V, M.SeqS, M.V], lambda dm, t, s, n, j: sv(dm, t, s, n, j) != NONE, sv)
firstkey = Least('rs:first source with key', [DM, M.V, M.SeqS, M.V, M.V], lambda dm, t, s, n, k, j: _get(dm, sv(dm, t, s, n, j), k) != ABSENT,
                 lambda dm, t, s, n, k, j: sv(dm, t, s, n, j))


def effective(v, a, n, m):
    """v is the value of item n as set by the first m of the sources a = (dm, top, others)"""
    f = firstset(*(a + (n, m)))
    return v == Ite(f < m, sv(*(a + (n, f))), NONE)


def effective_key(x, a, n, k, m):
    """x is the value for key k of the merged dictionaries"""
    b = firstkey(*(a + (n, k, m)))
    return x == Ite(b < m, _get(a[0], sv(*(a + (n, b))), k), ABSENT)


@contract
class merge(Contract):
    key = CU + 'merge_configs'
    types = {'description': 'ConfigDescription', 'top': 'ConfigDict', 'more_configs': 'list[ConfigDict]'}
    result = 'ConfigDict'

    chain = True

    def args(c):
        return c.pre.comp('dm'), c.a.top, c.pre.lseq(c.a.more_configs)

    def requires(c):
        G, d, l = c.pre, c.a.description, c.a.more_configs
        return wfdesc(c, G, d) + [('complete', source(c, G, d, c.a.top)), ('all complete', c.forall(1, lambda j: Imp(ok(j, G.llen(l)), source(
            c, G, d, G.at(l, j))), lambda j: [G.at(l, j)], [I]))]

    def shape(c, H, s):
        """new group dictionaries, which are no values of merging type"""
        G, d, t = c.pre, c.a.description, c.a.top
        it, gs = G.field(d, 'items'), G.field(d, 'groups')
        return [('new', And(groupdict(H, s), M.rid(s) >= G.alloc)), ('new groups', c.forall(1, lambda g: Imp(G.has(gs, g), And(groupdict(H, H.get(s, g)), M.rid(
            H.get(s, g)) >= G.alloc, H.get(s, g) != s)), lambda g: [H.get(s, g), G.get(gs, g)])),
            ('different groups', c.forall(2, lambda g, h: Imp(And(G.has(gs, g), G.has(gs, h), g != h), H.get(s, g) != H.get(s, h)), lambda g, h: [
                z3.MultiPattern(H.get(s, g), H.get(s, h))])),
            ('other keys', c.forall(1, lambda k: Imp(Not(Or(G.has(gs, k), plainitem(G, d, k))), H.get(s, k) == G.get(t, k)), lambda k: [H.get(s, k)])),
            ('other keys of groups', c.forall(2, lambda g, k: Imp(And(G.has(gs, g), Not(G.has(G.get(gs, g), k))), H.get(H.get(s, g), k) == G.get(G.get(
                t, g), k)), lambda g, k: [H.get(H.get(s, g), k)]))]

    def apart(c, H, s):
        G, d = c.pre, c.a.description
        it, gs = G.field(d, 'items'), G.field(d, 'groups')
        return [('values are no groups', c.forall(2, lambda n, g: Imp(And(G.has(it, n), G.has(gs, g), merging(G, itype(G, d, n))), And(
            val(H, s, n) != s, val(H, s, n) != H.get(s, g))), lambda n, g: [z3.MultiPattern(G.get(it, n), G.get(gs, g))]))]

    def last(c, j):
        G = c.pre
        it = G.field(c.a.description, 'items')
        return [('last source', c.forall(1, lambda n: Imp(G.has(it, n), sv(*(merge.args(c) + (n, j))) == val(G, Ite(j <= 0, c.a.top, G.at(
            c.a.more_configs, j - 1)), n)), lambda n: [G.get(it, n)]))]

    def values(c, H, s, m, which=lambda n: And()):
        G, d = c.pre, c.a.description
        it = G.field(d, 'items')
        mg = lambda n: merging(G, itype(G, d, n))
        a = merge.args(c)
        v = lambda n: val(H, s, n)
        return [('present', c.forall(1, lambda n: Imp(G.has(it, n), And(v(n) != ABSENT, Imp(mg(n), H.isdict(v(n))))), lambda n: [G.get(it, n)])),
                ('first value', c.forall(1, lambda n: Imp(And(G.has(it, n), Not(mg(n))), effective(v(n), a, n, m(n))), lambda n: [G.get(it, n)])),
                ('first entries', c.forall(2, lambda n, k: Imp(And(G.has(it, n), mg(n)), effective_key(H.get(v(n), k), a, n, k, m(n))), lambda n, k: [
                    H.get(v(n), k)]))]

    def inv(c):
        s = c.l('result')
        G, d = c.pre, c.a.description
        it = G.field(d, 'items')
        return merge.shape(c, c.h, s) + [('copied', Imp(c.idx == 0, c.forall(1, lambda n: Imp(G.has(it, n), val(c.h, s, n) == val(G, c.a.top, n)), lambda n: [
            G.get(it, n)])))] + merge.apart(c, c.h, s) + merge.last(c, c.idx) + merge.values(c, c.h, s, lambda n: c.idx + 1)

    def inv1(c):
        s = c.l('result')
        i = M.V.i(c.l('$loop0'))
        return merge.shape(c, c.h, s) + merge.apart(c, c.h, s) + merge.last(c, i + 1) + merge.values(c, c.h, s, lambda n: Ite(c.done(n), i + 2, i + 1))
    loops = {0: staticmethod(inv), 1: staticmethod(inv1)}

    def ensures(c):
        G, H, s = c.pre, c.post, c.res
        return merge.shape(c, H, s) + merge.values(c, H, s, lambda n: G.llen(c.a.more_configs) + 1)


def over_default(c, G, H, d, old, v, n):
    """v is the value of item n with the default value for what is unset in old"""
    df = G.field(G.get(G.field(d, 'items'), n), 'default')
    return Ite(merging(G, itype(G, d, n)), And(H.isdict(v), M.forall(1, lambda k: H.get(v, k) == Ite(H.has(old, k), H.get(old, k), G.get(df, k)), lambda k: [
        H.get(v, k)])), v == Ite(old == NONE, df, old))


@contract
class with_defaults(Contract):
    key = CU + 'merge_with_defaults'
    types = {'description': 'ConfigDescription', 'config': 'ConfigDict'}
    result = 'ConfigDict'

    def requires(c):
        return wfdesc(c, c.pre, c.a.description) + [('complete', source(c, c.pre, c.a.description, c.a.config))]

    def hints(c):
        m = c.call('merge_configs')
        it = c.pre.field(c.a.description, 'items')
        a = merge.args(m)
        return [('the sources', c.forall(1, lambda n: Imp(c.pre.has(it, n), And(sv(*(a + (n, 0))) == val(c.pre, c.a.config, n), sv(*(a + (n, 1))) == c.pre.field(
            c.pre.get(it, n), 'default'))), lambda n: [c.pre.get(it, n)]))]

    def ensures(c):
        G, H, d, s, t = c.pre, c.post, c.a.description, c.res, c.a.config
        it, gs = G.field(d, 'items'), G.field(d, 'groups')
        return [('new', M.rid(s) >= G.alloc), ('new groups', c.forall(1, lambda g: Imp(G.has(gs, g), And(groupdict(H, H.get(s, g)), M.rid(
            H.get(s, g)) >= G.alloc, H.get(s, g) != s)), lambda g: [H.get(s, g), G.get(gs, g)])),
            ('other keys', c.forall(1, lambda k: Imp(Not(Or(G.has(gs, k), plainitem(G, d, k))), H.get(s, k) == G.get(t, k)), lambda k: [H.get(s, k)])),
            ('other keys of groups', c.forall(2, lambda g, k: Imp(And(G.has(gs, g), Not(G.has(G.get(gs, g), k))), H.get(H.get(s, g), k) == G.get(G.get(
                t, g), k)), lambda g, k: [H.get(H.get(s, g), k)])),
            ('values', c.forall(1, lambda n: Imp(G.has(it, n), And(val(H, s, n) != ABSENT, Imp(Not(merging(G, itype(G, d, n))), val(H, s, n) == Ite(val(
                G, t, n) == NONE, G.field(G.get(it, n), 'default'), val(G, t, n))))), lambda n: [G.get(it, n)])),
            ('merged values', c.forall(2, lambda n, k: Imp(And(G.has(it, n), merging(G, itype(G, d, n))), H.get(val(H, s, n), k) == Ite(G.has(val(G, t, n), k), G.get(
                val(G, t, n), k), G.get(G.field(G.get(it, n), 'default'), k))), lambda n, k: [H.get(val(H, s, n), k)])),
            ('dictionaries', c.forall(1, lambda n: Imp(And(G.has(it, n), merging(G, itype(G, d, n))), H.isdict(val(H, s, n))), lambda n: [G.get(it, n)]))]


# ------------------------------------------------------------------ sources
class Reading(object):
    """Building a configuration of the description group by group, then the other items: invariants of the three loops.

    fits(c, item, group, key, v): v is a value of the item as given by this source.  group_ok(c, g): the source has no bad value for group g.
    """

    def __init__(self, fits, group_ok=lambda c, g: And()):
        self.fits, self.group_ok = fits, group_ok

    def groups(self, c, H, s, done):
        G, d = c.pre, c.a.description
        gs = G.field(d, 'groups')
        return [('new', M.rid(s) >= G.alloc), ('new groups', c.forall(1, lambda g: Imp(done(g), And(G.has(gs, g), groupdict(H, H.get(s, g)), M.rid(
            H.get(s, g)) >= G.alloc, H.get(s, g) != s, self.group_ok(c, g))), lambda g: [H.get(s, g), G.get(gs, g)])),
            ('different groups', c.forall(2, lambda g, h: Imp(And(done(g), done(h), g != h), H.get(s, g) != H.get(s, h)), lambda g, h: [
                z3.MultiPattern(H.get(s, g), H.get(s, h))])),
            ('keys of groups', c.forall(2, lambda g, k: Imp(done(g), H.has(H.get(s, g), k) == G.has(G.get(gs, g), k)), lambda g, k: [H.get(H.get(s, g), k)])),
            ('values of groups', c.forall(2, lambda g, k: Imp(And(done(g), G.has(G.get(gs, g), k)), self.fits(c, G.get(G.get(gs, g), k), g, k, H.get(
                H.get(s, g), k))), lambda g, k: [H.get(H.get(s, g), k)]))]

    def invariants(self):
        def inv0(c):
            s = c.l('config')
            return self.groups(c, c.h, s, c.done) + [('keys', c.forall(1, lambda k: c.h.has(s, k) == c.done(k), lambda k: [c.h.get(s, k)]))]

        def inv1(c):
            G, H, g = c.pre, c.h, c.l('group')
            t = H.get(c.l('config'), g)
            item = lambda k: G.get(G.get(G.field(c.a.description, 'groups'), g), k)
            return [('keys', c.forall(1, lambda k: H.has(t, k) == c.done(k), lambda k: [H.get(t, k)])),
                    ('values', c.forall(1, lambda k: Imp(c.done(k), self.fits(c, item(k), g, k, H.get(t, k))), lambda k: [H.get(t, k)]))]

        def inv2(c):
            G, H, d, s = c.pre, c.h, c.a.description, c.l('config')
            it, gs = G.field(d, 'items'), G.field(d, 'groups')
            return self.groups(c, H, s, lambda g: G.has(gs, g)) + [
                ('keys', c.forall(1, lambda k: H.has(s, k) == Or(G.has(gs, k), And(c.done(k), Not(slash(k)))), lambda k: [H.get(s, k)])),
                ('values', c.forall(1, lambda n: Imp(And(c.done(n), Not(slash(n))), self.fits(c, G.get(it, n), None, n, H.get(s, n))), lambda n: [H.get(s, n)]))]
        return {0: inv0, 1: inv1, 2: inv2}
    loopmod = {1: {'dm': lambda c, r: r == M.rid(c.entry.get(c.l('config'), c.l('group')))}}


# ------------------------------------------------------------------ parsing
def fits(H, t, src, v):
    """v is a value of type t made of src"""
    return And(v != ABSENT, acc(t, v), made(t, src, v), Not(bad(t, src)), Imp(merging(H, t), H.isdict(v)), Imp(And(H.inst(t, 'List'), v != NONE), H.islist(v)), Imp(And(src == NONE, Not(merging(H, t))), v == NONE))


def given(x):
    return Ite(x == ABSENT, NONE, x)


def group_data(G, data, g):
    return given(G.get(data, g))


def src_of(G, data, n):
    """what the document has for item n"""
    gd = group_data(G, data, grp(n))
    return Ite(slash(n), Ite(gd == NONE, NONE, given(G.get(gd, sub(n)))), given(G.get(data, n)))


@contract
class parsed(Contract):
    key = CU + 'config_from_parsed_yaml'
    types = {'data': 'any', 'description': 'ConfigDescription', 'use_defaults': 'bool'}
    result = 'ConfigDict'
    chain = True

    def requires(c):
        return wfdesc(c, c.pre, c.a.description)

    def refused(c):
        G, d, data = c.pre, c.a.description, c.a.data
        it, gs = G.field(d, 'items'), G.field(d, 'groups')
        return Or(Not(G.isdict(data)), M.exists(1, lambda g: And(G.has(gs, g), group_data(G, data, g) != NONE, Not(G.isdict(group_data(G, data, g)))), pats=lambda g: [
            G.get(gs, g)]), M.exists(1, lambda n: And(G.has(it, n), bad(itype(G, d, n), src_of(G, data, n))), pats=lambda n: [G.get(it, n)]))
    raises = {CVE: lambda c: parsed.refused(c)}

    def group_src(G, data, g, k):
        gd = group_data(G, data, g)
        return Ite(gd == NONE, NONE, given(G.get(gd, k)))

    def item_fits(c, item, g, k, v):
        G, data = c.pre, c.a.data
        return fits(G, G.field(item, 'type'), given(G.get(data, k)) if g is None else parsed.group_src(G, data, g, k), v)

    def group_ok(c, g):
        return Or(group_data(c.pre, c.a.data, g) == NONE, c.pre.isdict(group_data(c.pre, c.a.data, g)))
    reading = Reading(lambda *a: parsed.item_fits(*a), lambda *a: parsed.group_ok(*a))
    loops = reading.invariants()
    loopmod = reading.loopmod

    def ensures(c):
        G, H, d, data, s = c.pre, c.post, c.a.description, c.a.data, c.res
        it = G.field(d, 'items')
        df = lambda n: G.field(G.get(it, n), 'default')
        v = lambda n: val(H, s, n)
        dflt = c.a.use_defaults == M.vbool(True)
        gs = G.field(d, 'groups')
        out = [('new', M.rid(s) >= c.alloc0), ('from a dictionary', G.isdict(data)), ('groups from dictionaries', c.forall(1, lambda g: Imp(G.has(
            gs, g), parsed.group_ok(c, g)), lambda g: [G.get(gs, g)]))] + exactly(c, G, H, d, s) + [
            ('values', Imp(Not(dflt), c.forall(1, lambda n: Imp(G.has(it, n), fits(G, itype(G, d, n), src_of(G, data, n), v(n))), lambda n: [G.get(it, n)])))]
        def defaulted(n):
            T, src, mg = itype(G, d, n), src_of(G, data, n), merging(G, itype(G, d, n))
            return M.exists(1, lambda p: And(fits(G, T, src, p), Imp(Not(mg), v(n) == Ite(p == NONE, df(n), p)), Imp(mg, And(H.isdict(v(n)), M.forall(
                1, lambda k: H.get(v(n), k) == Ite(H.has(p, k), H.get(p, k), G.get(df(n), k)), lambda k: [H.get(v(n), k)])))), pats=lambda p: [made(T, src, p)])
        out.append(('values and defaults', Imp(dflt, c.forall(1, lambda n: Imp(G.has(it, n), defaulted(n)), lambda n: [G.get(it, n)]))))
        return out


# ------------------------------------------------------------------ command line
def dest(item_arg):
    """attribute of the parsed arguments for an option"""
    r = B.uf_str('replace', item_arg, STR('-'), STR('_')).t
    return B.uf_str('replace', r, SL, STR('_')).t


db.fields['Args']['__dict__'] = 'dict'


def h_vars(ex, st, args, kw, X, node):
    a = ex.sv(st, args[0])
    v = st.H.field(a.t, '__dict__')
    st.assume(typed(st.H, v, 'dict'))
    return [(st, E.SV(v, ('dict', ('any',), ('any',))))]


db.externals['builtins.vars'] = h_vars


def arg_of(c, item):
    G = c.pre
    return G.get(G.field(c.a.args, '__dict__'), dest(G.field(item, 'command_line_argument')))


def exposed(G, item):
    return G.field(item, 'command_line') == M.vbool(True)


def arg_fits(c, item, v):
    """v is a value of the item, as given by its argument if it has one"""
    G = c.pre
    T, a, x = G.field(item, 'type'), arg_of(c, item), exposed(G, item)
    mg = merging(G, T)
    return And(v != ABSENT, Imp(mg, G.isdict(v)), Ite(x, And(acc(T, v), cmade(T, a, v), Not(cbad(T, a)), Imp(And(a == NONE, Not(mg)), v == NONE)), Imp(
        Not(mg), v == NONE)))


@contract
class from_args(Contract):
    key = CU + 'config_from_args'
    types = {'args': 'Args', 'description': 'ConfigDescription'}
    result = 'ConfigDict'
    chain = True
    raises = {CVE: lambda c: from_args.refused(c)}

    def requires(c):
        G, d = c.pre, c.a.description
        it = G.field(d, 'items')
        return CT.docs(c) + wfdesc(c, G, d) + [('parsed arguments', c.forall(1, lambda n: Imp(And(G.has(it, n), exposed(G, G.get(it, n))), And(M.V.is_str(G.field(
            G.get(it, n), 'command_line_argument')), arg_of(c, G.get(it, n)) != ABSENT, CT.wanted(G, itype(G, d, n), arg_of(c, G.get(it, n))))), lambda n: [
                G.get(it, n)]))]

    def refused(c):
        G, d = c.pre, c.a.description
        it = G.field(d, 'items')
        return M.exists(1, lambda n: And(G.has(it, n), exposed(G, G.get(it, n)), cbad(itype(G, d, n), arg_of(c, G.get(it, n)))), pats=lambda n: [G.get(it, n)])
    reading = Reading(lambda c, item, g, k, v: arg_fits(c, item, v))
    loops = reading.invariants()
    loopmod = reading.loopmod

    def ensures(c):
        G, H, d, s = c.pre, c.post, c.a.description, c.res
        it = G.field(d, 'items')
        return [('new', M.rid(s) >= c.alloc0)] + exactly(c, G, H, d, s) + [
            ('values', c.forall(1, lambda n: Imp(G.has(it, n), arg_fits(c, G.get(it, n), val(H, s, n))), lambda n: [G.get(it, n)]))]
