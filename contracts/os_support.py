"""Contracts for detection and override of the OS (os_support/impl.py)."""
from contracts.world import *

OI = 'xylem.os_support.impl:'


def ends(c, x, l):
    """x in list l of the pre state"""
    return M.exists(1, lambda j: And(j >= 0, j < c.pre.llen(l), c.pre.at(l, j) == x), [M.I])


def parent(c, p, q):
    """p is q or a parent of q, by q's list of names"""
    return ends(c, c.pre.field(p, 'name'), c.pre.field(q, 'all_names'))


def plug(c, j):
    return c.pre.at(c.pre.field(c.a.self, 'os_plugins'), j)


def nplug(c):
    return c.pre.llen(c.pre.field(c.a.self, 'os_plugins'))


def inr(j, n):
    return And(j >= 0, j < n)


def match(c, j):
    return is_os(plug(c, j))


def line(c):
    """the matching plugins form a line of derivatives"""
    n = nplug(c)
    return And(
        M.forall(1, lambda i: Imp(And(inr(i, n), match(c, i)), parent(c, plug(c, i), plug(c, i))), lambda i: [plug(c, i)], [M.I]),
        M.forall(2, lambda i, j: Imp(And(inr(i, n), inr(j, n), match(c, i), match(c, j)),
                                     Or(parent(c, plug(c, i), plug(c, j)), parent(c, plug(c, j), plug(c, i)))),
                 lambda i, j: [z3.MultiPattern(plug(c, i), plug(c, j))], [M.I, M.I]),
        M.forall(3, lambda i, j, k: Imp(And(inr(i, n), inr(j, n), inr(k, n), match(c, i), match(c, j), match(c, k),
                                            parent(c, plug(c, i), plug(c, j)), parent(c, plug(c, j), plug(c, k))),
                                        parent(c, plug(c, i), plug(c, k))),
                 lambda i, j, k: [z3.MultiPattern(plug(c, i), plug(c, j), plug(c, k))], [M.I, M.I, M.I]))


def chosen(c, r, n):
    """r is a matching plugin among the first n; the most specific one of a line"""
    return And(M.exists(1, lambda j: And(inr(j, n), r == plug(c, j), match(c, j)), [M.I]),
               Imp(line(c), M.forall(1, lambda j: Imp(And(inr(j, n), match(c, j)), parent(c, plug(c, j), r)),
                                     lambda j: [plug(c, j)], [M.I])))


def none_matches(c, n):
    return M.forall(1, lambda j: Imp(inr(j, n), Not(match(c, j))), lambda j: [plug(c, j)], [M.I])


@contract
class detect_os(Contract):
    key = OI + 'OSSupport.detect_os'
    result = 'none'
    raises = {'UnsupportedOSError': lambda c: none_matches(c, nplug(c))}
    modifies = {'f._os': lambda c, r: r == M.rid(c.a.self)}

    def requires(c):
        return [('plugins', tfield(c.pre, c.a.self, 'os_plugins', 'list[OS]'))]

    def ensures(c):
        return [('matching and most specific', chosen(c, c.post.field(c.a.self, '_os'), nplug(c)))]

    def ens_exc(c, exc):
        return [('current os kept', c.post.field(c.a.self, '_os') == c.pre.field(c.a.self, '_os'))]

    @staticmethod
    def inv(c):
        r = c.l('result')
        return [('none', Imp(r == NONE, none_matches(c, c.idx))),
                ('chosen', Imp(r != NONE, chosen(c, r, c.idx)))]
    loops = {0: inv}
    loop_types = {0: {'result': 'OS?'}}


# ---------------------------------------------------------------- override
def named(c, x, n):
    """x: plugin of the given name that comes first among the first n"""
    return M.exists(1, lambda j: And(inr(j, n), x == plug(c, j), c.pre.field(plug(c, j), 'name') == pname(c), M.forall(
        1, lambda i: Imp(And(i >= 0, i < j), c.pre.field(plug(c, i), 'name') != pname(c)), lambda i: [plug(c, i)], [M.I])), [M.I])


def unnamed(c, n):
    return M.forall(1, lambda i: Imp(inr(i, n), c.pre.field(plug(c, i), 'name') != pname(c)), lambda i: [plug(c, i)], [M.I])


def pname(c):
    return M.V.t2a(c.a.os_tuple) if 'os_tuple' in c.a.__dict__ else c.a.name


@contract
class lookup_os(Contract):
    key = OI + 'OSSupport.lookup_os'
    types = {'name': 'any'}
    result = 'OS?'
    allocs = False

    def requires(c):
        return [('plugins', tfield(c.pre, c.a.self, 'os_plugins', 'list[OS]'))]

    def ensures(c):
        return [('first of that name, or None', Ite(c.res == NONE, unnamed(c, nplug(c)), named(c, c.res, nplug(c))))]

    @staticmethod
    def inv(c):
        return [('none so far', unnamed(c, c.idx))]
    loops = {0: inv}


def pversion(c):
    return M.V.t2b(c.a.os_tuple)


def bad_version(c, os_):
    return And(pversion(c) != NONE, Not(ends(c, pversion(c), c.pre.field(os_, 'known_versions'))))


def some(c, f):
    """f holds for the plugin that an override names"""
    return M.exists(1, lambda j: And(inr(j, nplug(c)), named(c, plug(c, j), nplug(c)), f(plug(c, j))), [M.I])


def undetected(c, o):
    return And(pversion(c) == NONE, Not(version_known(o)))


@contract
class override_os(Contract):
    key = OI + 'OSSupport.override_os'
    types = {'os_tuple': 'tuple[any,str?]?'}
    result = 'none'
    raises = {'UnsupportedOSError': lambda c: Or(unnamed(c, nplug(c)), some(c, lambda o: undetected(c, o))),
              'UnsupportedOSVersionError': lambda c: some(c, lambda o: Or(undetected(c, o), bad_version(c, o)))}
    modifies = {'f._os': lambda c, r: r == M.rid(c.a.self)}

    def requires(c):
        j = lambda i: c.pre.field(plug(c, i), 'known_versions')
        return [('plugins', tfield(c.pre, c.a.self, 'os_plugins', 'list[OS]'))]

    def ensures(c):
        new, v = c.post.field(c.a.self, '_os'), pversion(c)
        o = c.post.field(new, 'os')
        return [('no override', Imp(c.a.os_tuple == NONE, new == c.pre.field(c.a.self, '_os'))),
                ('override', Imp(c.a.os_tuple != NONE, And(
                    M.rid(new) >= c.alloc0, c.post.inst(new, 'OSOverride'), named(c, o, nplug(c)),
                    Ite(v == NONE, And(version_known(o), c.post.field(new, 'version') == os_version(o)),
                        And(ends(c, v, c.pre.field(o, 'known_versions')), c.post.field(new, 'version') == v)))))]

    def ens_exc(c, exc):
        return [('current os kept', c.post.field(c.a.self, '_os') == c.pre.field(c.a.self, '_os'))]


@contract
class current_os(Contract):
    key = OI + 'OSSupport.current_os'
    result = 'OS'
    raises = {'UnsupportedOSError': lambda c: And(c.pre.field(c.a.self, '_os') == NONE, none_matches(c, nplug(c)))}
    modifies = {'f._os': lambda c, r: And(r == M.rid(c.a.self), c.pre.field(c.a.self, '_os') == NONE)}

    def requires(c):
        return [('plugins', tfield(c.pre, c.a.self, 'os_plugins', 'list[OS]'))]

    def ensures(c):
        old, new = c.pre.field(c.a.self, '_os'), c.post.field(c.a.self, '_os')
        return [('the current os', And(c.res == new, c.res != NONE)),
                ('kept', Imp(old != NONE, new == old)),
                ('detected', Imp(old == NONE, chosen(c, new, nplug(c))))]

    def ens_exc(c, exc):
        return [('current os kept', c.post.field(c.a.self, '_os') == c.pre.field(c.a.self, '_os'))]


def delegate(fn, value, types_={}, res='any'):
    @contract
    class d(Contract):
        key = OI + 'OSOverride.' + fn
        types = types_
        result = res

        def ensures(c):
            return [("the delegate's answer", c.res == value(c, c.pre.field(c.a.self, 'os')))]


for p in ('name', 'all_names', 'default_installer', 'known_versions', 'version_less_fn', 'options'):
    delegate(p, lambda c, o, p=p: c.pre.field(o, p))
delegate('get_all_tuples', lambda c, o: ufv('os.get_all_tuples', o, c.a.version))
delegate('get_core_installers', lambda c, o: ufv('os.get_core_installers', o, c.a.version, c.a.options))
delegate('get_version', lambda c, o: c.pre.field(c.a.self, 'version'))
delegate('get_tuple', lambda c, o: M.vtuple([c.pre.field(o, 'name'), c.pre.field(c.a.self, 'version')]))
delegate('is_os', lambda c, o: M.vbool(True))


@contract
class set_options(Contract):
    key = OI + 'OSOverride.options=set'
    types = {'options': 'any'}
    result = 'none'
    modifies = {'f.options': lambda c, r: r == M.rid(c.pre.field(c.a.self, 'os'))}

    def ensures(c):
        return [('passed on', c.post.field(c.pre.field(c.a.self, 'os'), 'options') == ufv('os.parsed options', c.a.options))]
