"""Contracts for OS tuples and the version order (os_support/plugins.py, os_base.py)."""
from contracts.world import *

OP = 'xylem.os_support.plugins:'
OB = 'xylem.os_support.os_base:'
db.fields['_OSDetecorBase'] = {'_names': 'list[str]', '_version_mappings': 'list'}


def mapped(f, v):
    """value of a version mapping function"""
    return ufv('version mapping', f, v)


def h_mapping(ex, st, args, kw, X, node):
    f, v = args
    return [(st, ex.hinted(st, mapped(f.t, ex.sv(st, v).t), ('any',)))]


def step(H, v, m):
    """version of the parent of an OS with version v and declared mapping m"""
    return Ite(Or(v == NONE, m == NONE), NONE, Ite(And(M.V.is_ref(m), H.isdict(m)), over(H.get(m, v), NONE), mapped(m, v)))


@contract
class get_all_tuples(Contract):
    key = OP + '_OSDetecorBase.get_all_tuples'
    types = {'version': 'str?'}
    result = 'list[tuple[str,any]]'
    callbacks = h_mapping

    def requires(c):
        H, s = c.pre, c.a.self
        ms, ns = H.field(s, '_version_mappings'), H.field(s, '_names')
        return [('names', tfield(H, s, '_names', 'list[str]')),
                ('one mapping per name', H.llen(ms) == H.llen(ns)),
                ('mappings', c.forall(1, lambda j: Imp(And(j >= 0, j < H.llen(ms)), And(H.at(ms, j) != ABSENT, Or(
                    H.at(ms, j) == NONE, M.V.is_fun(H.at(ms, j)), And(
                        M.V.is_ref(H.at(ms, j)), typed(H, H.at(ms, j), 'dict'), c.forall(
                            1, lambda k: Imp(H.has(H.at(ms, j), k), Not(M.V.is_ref(H.get(H.at(ms, j), k)))),
                            lambda k: [H.get(H.at(ms, j), k)]))))),
                    lambda j: [H.at(ms, j)], [M.I])),
                ('mapping functions give versions', M.forall(2, lambda f, v: And(
                    mapped(f, v) != ABSENT, Not(M.V.is_ref(mapped(f, v)))), lambda f, v: [mapped(f, v)]))]

    def good(c, r, n, H):
        g, s = c.pre, c.a.self
        ms, ns = g.field(s, '_version_mappings'), g.field(s, '_names')
        ver = lambda j: M.V.t2b(H.at(r, j))
        return [('length', H.llen(r) == n),
                ('names, most specific first', c.forall(1, lambda j: Imp(And(j >= 0, j < n), And(
                    M.V.is_t2(H.at(r, j)), M.V.t2a(H.at(r, j)) == g.at(ns, j))), lambda j: [H.at(r, j)], [M.I])),
                ('starts with the version', Imp(n > 0, ver(z3.IntVal(0)) == c.a.version)),
                ('versions follow the mapping', c.forall(1, lambda j: Imp(And(j >= 1, j < n), ver(j) == step(
                    g, ver(j - 1), g.at(ms, j - 1))), lambda j: [H.at(r, j)], [M.I]))]

    def ensures(c):
        n = c.pre.llen(c.pre.field(c.a.self, '_names'))
        return [('fresh', M.rid(c.res) >= c.alloc0)] + get_all_tuples.good(c, c.res, n, c.post)

    @staticmethod
    def inv(c):
        r = c.l('tuples')
        ms = c.pre.field(c.a.self, '_version_mappings')
        return get_all_tuples.good(c, r, c.idx, c.h) + [
            ('version', c.l('version') == Ite(c.idx == 0, c.a.version, step(
                c.pre, M.V.t2b(c.h.at(r, c.idx - 1)), c.pre.at(ms, c.idx - 1)))),
            ('plain version', Not(M.V.is_ref(c.l('version'))))]
    loops = {0: inv}
    loop_types = {0: {'version': 'any'}}


# the returned order: a harness calls the real function and then the closure
db.clients['verif.versions'] = '''
from xylem.os_support.os_base import version_order_from_list

def order(versions, a, b):
    less = version_order_from_list(versions)
    return less(a, b)
'''


def pos(c, x, r):
    """r says where x stands"""
    return r


@contract
class version_order(Contract):
    key = 'verif.versions:order'
    types = {'versions': 'list[str]', 'a': 'str', 'b': 'str'}
    result = 'bool'

    def dup(c):
        v = c.a.versions
        return M.exists(2, lambda i, j: And(i >= 0, i < j, j < c.pre.llen(v), c.pre.at(v, i) == c.pre.at(v, j)), [M.I, M.I])

    def known(c, x):
        v = c.a.versions
        return M.exists(1, lambda i: And(i >= 0, i < c.pre.llen(v), c.pre.at(v, i) == x), [M.I])

    raises = {'AssertionError': lambda c: version_order.dup(c),
              'UnsupportedOSVersionError': lambda c: Or(Not(version_order.known(c, c.a.a)), Not(version_order.known(c, c.a.b)))}

    def ensures(c):
        v, H = c.a.versions, c.pre
        n = H.llen(v)
        return [('known', And(version_order.known(c, c.a.a), version_order.known(c, c.a.b))),
                ('listed sequence', c.forall(2, lambda i, j: Imp(
                    And(i >= 0, i < n, j >= 0, j < n, H.at(v, i) == c.a.a, H.at(v, j) == c.a.b), c.res == M.vbool(i < j)),
                    lambda i, j: [z3.MultiPattern(H.at(v, i), H.at(v, j))], [M.I, M.I]))]


db.clients['verif.versions'] += '''

def order_later(versions, a, b, x):
    less = version_order_from_list(versions)
    versions.append(x)
    return less(a, b)
'''


@contract
class version_order_later(version_order):
    key = 'verif.versions:order_later'
    types = {'versions': 'list[str]', 'a': 'str', 'b': 'str', 'x': 'str'}
    modifies = {'ll': lambda c, r: r == M.rid(c.a.versions), 'le': lambda c, r: r == M.rid(c.a.versions)}


# the lists of names and mappings grow together
db.fields['_OSDetecorBase'].update({'_known_versions': 'list', '_detector': 'any', '_use_codename': 'bool',
                                    '_core_installers': 'list', '_default_installer': 'str?', '_versions': 'list'})
db.fields['OSBase'] = {'options_description': 'any', '_options': 'any'}


def h_any(name):
    def h(ex, st, args, kw, X, node):
        return [(st, ex.hinted(st, M.fconst(name, M.V), ('any',)))]
    return h


@contract
class prepend_name(Contract):
    key = OP + '_OSDetecorBase._prepend_name'
    types = {'name': 'str', 'version_mapping': 'any'}
    result = 'none'
    modifies = {k: lambda c, r: Or(r == M.rid(c.pre.field(c.a.self, '_names')), r == M.rid(c.pre.field(c.a.self, '_version_mappings')))
                for k in ('ll', 'le')}

    def requires(c):
        return [('two lists', c.pre.field(c.a.self, '_names') != c.pre.field(c.a.self, '_version_mappings'))]

    def ensures(c):
        out = []
        for f, v in (('_names', c.a.name), ('_version_mappings', c.a.version_mapping)):
            l = c.pre.field(c.a.self, f)
            out += [(f + ' grows', And(c.post.llen(l) == c.pre.llen(l) + 1, c.post.at(l, 0) == v)),
                    (f + ' kept', c.forall(1, lambda j, l=l: Imp(And(j >= 1, j <= c.pre.llen(l)), c.post.at(l, j) == c.pre.at(l, j - 1)),
                                           lambda j, l=l: [c.post.at(l, j)], [M.I]))]
        return out


def ctor(cls, names, versions):
    @contract
    class k(Contract):
        key = OP + cls + '.__init__'
        result = 'none'
        use_inline = (OP + '_OSDetecorBase._prepend_name',) + tuple(OP + x + '.__init__' for x in ('Debian', 'Ubuntu'))
        modifies = {'f.' + f: lambda c, r: r == M.rid(c.a.self) for f in (
            list(db.fields['_OSDetecorBase']) + list(db.fields['OSBase']))}

        def ensures(c):
            H, s = c.post, c.a.self
            ns, ms, vs = H.field(s, '_names'), H.field(s, '_version_mappings'), H.field(s, '_versions')
            return [('one mapping per name', And(H.llen(ns) == len(names), H.llen(ms) == len(names))),
                    ('names', And(*[H.at(ns, i) == STR(n) for i, n in enumerate(names)]))] + (
                [('known versions', And(H.llen(vs) == len(versions), *[H.at(vs, i) == STR(n) for i, n in enumerate(versions)]))]
                if versions else [])
    return k


db.externals['xylem.os_support.os_base:OSBase.__init__'] = lambda ex, st, args, kw, X, node: [(st, ex.const(None))]
db.externals['xylem.os_support.os_detect:OsDetect.get_detector'] = h_any('detector')
db.externals['class:OsDetect'] = lambda ex, st, args, kw, X, node: [(st, E.SV(ex.alloc(st, 'obj', 'OsDetect'), ('obj', 'OsDetect')))]
ctor('Debian', ['debian'], 'etch lenny squeeze wheezy jessie'.split())
ctor('Ubuntu', ['ubuntu', 'debian'], 'lucid maverick natty oneiric precise quantal raring saucy trusty utopic'.split())
ctor('Xubuntu', ['xubuntu', 'ubuntu', 'debian'], None)
