"""Contracts for xylem/install.py: grouping, filtering, prerequisites, installation."""
import string

from contracts.world import *
from contracts import installers as IN
from contracts import util
from pyvc.theory import Filter, Groups, Sum, Least, inlist, first, dedup, listed, content, clen, cnth, somewhere, digest, Rec

I, A = M.I, z3.ArraySort(M.I, M.V)
IP = 'xylem.install:'
LL = M.comp_sort('ll')


def name_at(s, j):
    """installer name of tuple j of the sequence"""
    return M.V.t2a(z3.Select(s, j))


def list_at(s, j):
    return M.V.t2b(z3.Select(s, j))


def ok(j, n):
    return And(j >= 0, j < n)


# ------------------------------------------------------------------ grouping
groups = Groups('rs:groups', [LL, M.SeqS], lambda ll, s, j: name_at(s, j) == name_at(s, j - 1),
                lambda ll, s, j: z3.Select(ll, M.V.r(list_at(s, j))))


def squashed(G, src, H, res, n=None):
    """list res (in heap H) has the grouped tuples of the first n of list src (in heap G)"""
    s, ll = G.lseq(src), G.comp('ll')
    n = G.llen(src) if n is None else n
    g, off = lambda i: groups.group(ll, s, i), lambda i: groups.off(ll, s, i)
    grp = lambda i: H.at(res, g(i))
    size = lambda i: G.llen(list_at(s, i))
    return [
        ('number of groups', H.llen(res) == Ite(n <= 0, 0, g(n - 1) + 1)),
        ('names', M.forall(1, lambda i: Imp(ok(i, n), M.V.t2a(grp(i)) == name_at(s, i)), lambda i: [z3.Select(s, i)], [I])),
        ('content', M.forall(2, lambda i, j: Imp(And(ok(i, n), ok(j, size(i))), H.at(
            M.V.t2b(grp(i)), off(i) + j) == G.at(list_at(s, i), j)), lambda i, j: [G.at(list_at(s, i), j)], [I, I])),
        ('length', M.forall(1, lambda i: Imp(And(ok(i, n), Or(i == n - 1, g(i + 1) != g(i))), H.llen(
            M.V.t2b(grp(i))) == off(i) + size(i)), lambda i: [g(i)], [I]))]


def differ(H, r):
    return ('neighbours differ', M.forall(1, lambda k: Imp(And(k >= 0, k + 1 < H.llen(r)), M.V.t2a(H.at(r, k)) != M.V.t2a(
        H.at(r, k + 1))), lambda k: [H.at(r, k)], [I]))


@contract
class squash(Contract):
    key = IP + '_squash_resolutions'
    types = {'resolved': 'list[tuple[str,list]]'}
    result = 'list[tuple[str,list]]'

    def ensures(c):
        a, H, r = c.a.resolved, c.post, c.res
        return [('fresh', M.rid(r) >= c.alloc0)] + squashed(c.pre, a, H, r) + [
            differ(H, r)]

    @staticmethod
    def inv(c):
        r, prev, s = c.l('squashed'), c.l('previous_installer_name'), c.seq
        return squashed(c.pre, c.a.resolved, c.h, r, c.idx) + [
            differ(c.h, r), ('previous', Ite(c.idx == 0, prev == NONE, prev == name_at(s, c.idx - 1))),
            ('new lists', c.forall(1, lambda k: Imp(ok(k, c.h.llen(r)), And(
                typed(c.h, c.h.at(r, k), 'tuple[str,list]'), M.rid(M.V.t2b(c.h.at(r, k))) >= c.alloc0, M.V.t2b(c.h.at(r, k)) != r)), lambda k: [c.h.at(r, k)], [I])),
            ('different lists', c.forall(2, lambda k, l: Imp(And(k >= 0, k < l, l < c.h.llen(r)), M.V.t2b(c.h.at(r, k)) != M.V.t2b(
                c.h.at(r, l))), lambda k, l: [z3.MultiPattern(c.h.at(r, k), c.h.at(r, l))], [I, I]))]
    loops = {0: inv}


# resolutions of installer x among the first tuples
share = Sum('rs:share', [LL, M.SeqS, M.V], lambda ll, s, x, j: Ite(name_at(s, j) == x, z3.Select(ll, M.V.r(list_at(s, j))), 0))


def mapped(G, src, H, res, n=None):
    """dict res has, per installer, the concatenated lists of the first n tuples"""
    s, ll = G.lseq(src), G.comp('ll')
    n = G.llen(src) if n is None else n
    to = lambda i: H.get(res, name_at(s, i))
    return [
        ('installers', M.forall(1, lambda x: H.has(res, x) == listed(G, src, x, n), lambda x: [H.get(res, x), listed(G, src, x, n)])),
        ('content', M.forall(2, lambda i, j: Imp(And(ok(i, n), ok(j, G.llen(list_at(s, i)))), H.at(
            to(i), share(ll, s, name_at(s, i), i) + j) == G.at(list_at(s, i), j)), lambda i, j: [G.at(list_at(s, i), j)], [I, I])),
        ('length', M.forall(1, lambda x: share(ll, s, x, n) == Ite(
            H.has(res, x), H.llen(H.get(res, x)), 0), lambda x: [H.get(res, x), share(ll, s, x, n)]))]


def own_lists(c, H, res):
    """the values of dict res are new lists, no two the same"""
    return [('new lists', c.forall(1, lambda x: Imp(H.has(res, x), And(
        M.V.is_str(x), typed(H, H.get(res, x), 'list'), M.rid(H.get(res, x)) >= c.alloc0)), lambda x: [H.get(res, x)])),
        ('different lists', c.forall(2, lambda x, y: Imp(And(H.has(res, x), H.has(res, y), x != y), H.get(res, x) != H.get(
            res, y)), lambda x, y: [z3.MultiPattern(H.get(res, x), H.get(res, y))]))]


@contract
class map_resolutions(Contract):
    key = IP + '_map_resolutions'
    types = {'resolved': 'list[tuple[str,list]]'}
    result = 'dict[str,list]'

    def ensures(c):
        return [('fresh', M.rid(c.res) >= c.alloc0)] + mapped(c.pre, c.a.resolved, c.post, c.res) + own_lists(c, c.post, c.res)

    @staticmethod
    def inv(c):
        r = c.l('result')
        return mapped(c.pre, c.a.resolved, c.h, r, c.idx) + own_lists(c, c.h, r)
    loops = {0: inv}


@contract
class installer_names(Contract):
    key = IP + '_installer_names'
    types = {'resolved': 'list[tuple[str,any]]'}
    result = 'list[str]'

    def ensures(c):
        s, r, H = c.pre.lseq(c.a.resolved), c.res, c.post
        x = lambda x: listed(c.pre, c.a.resolved, x)
        return [('fresh', M.rid(r) >= c.alloc0),
                ('every installer', c.forall(1, lambda x: inlist(H, r, x) == listed(c.pre, c.a.resolved, x), lambda x: [
                    first(H, r, x), listed(c.pre, c.a.resolved, x)]))]


# ------------------------------------------------------------------ filtering
_CANT = z3.Function('rs:cannot filter', M.V, M.V, z3.BoolSort())
_LEFT = z3.Function('rs:left to install', M.V, M.V, M.V)


method('Installer.filter_uninstalled', ['self', 'resolved'], 'list', lambda c: [
    ('answer', content(c.post, c.res) == _LEFT(c.a.self, content(c.pre, c.a.resolved))),
    ('its argument or a new list', Or(c.res == c.a.resolved, M.rid(c.res) >= c.alloc0)),
    ('can tell', Not(_CANT(c.a.self, content(c.pre, c.a.resolved))))],
    raises_={'InstallerError': lambda c: _CANT(c.a.self, content(c.pre, c.a.resolved)), 'Exception': None})

LE = M.comp_sort('le')
FI = [A, M.SeqS, I, LL, LE, M.SeqS]        # plugin names, plugins and their number, lists, tuples


def _cont(ll, le, l):
    from pyvc import theory
    return theory._content(z3.Select(ll, M.V.r(l)), z3.Select(le, M.V.r(l)))


def _inst(nm, ps, np, ll, le, s, i):
    return IN.fnd(nm, ps, np, name_at(s, i))


def _left(*a):
    i, l = _inst(*a), _cont(a[3], a[4], list_at(a[5], a[6]))
    return Ite(_CANT(i, l), l, _LEFT(i, l))


kept = Filter('rs:kept', FI, lambda *a: clen(_left(*a)) > 0)
cannot = Filter('rs:cannot', FI, lambda *a: _CANT(_inst(*a), _cont(a[3], a[4], list_at(a[5], a[6]))))


def plugs(c):
    H, ic = c.pre, c.a.installer_context
    p = H.field(ic, 'installer_plugins')
    return [H.comp('f.name'), H.lseq(p), H.llen(p)]


def fi(c):
    H = c.pre
    return plugs(c) + [H.comp('ll'), H.comp('le'), H.lseq(c.a.resolved)]


def wfic(c):
    return [('plugins', tfield(c.pre, c.a.installer_context, 'installer_plugins', 'list[Installer]'))]


def missing(c, x):
    """there is no installer of that name"""
    return IN.fnd(*(plugs(c) + [x])) == NONE


@contract
class filter_uninstalled(Contract):
    key = IP + 'filter_uninstalled'
    types = {'resolved': 'list[tuple[str,list]]', 'installer_context': 'InstallerContext'}
    result = 'tuple[list[tuple[str,list]],list]'
    raises = {'XylemInternalError': None}
    requires = wfic

    def filtered(c, H, r, n):
        a = fi(c)
        k = lambda i: kept.nth(*(a + [i]))
        return [('length', H.llen(r) == kept.count(*(a + [n]))),
                ('elements', M.forall(1, lambda i: Imp(ok(i, H.llen(r)), And(
                    M.V.t2a(H.at(r, i)) == name_at(a[-1], k(i)), content(H, M.V.t2b(H.at(r, i))) == _left(*(a + [k(i)])),
                    typed(H, H.at(r, i), 'tuple[str,list]'))), lambda i: [H.at(r, i)], [I]))]

    def ensures(c):
        r, e, n = M.V.t2a(c.res), M.V.t2b(c.res), c.pre.llen(c.a.resolved)
        return filter_uninstalled.filtered(c, c.post, r, n) + [
            ('fresh', And(M.rid(r) >= c.alloc0, M.rid(e) >= c.alloc0, r != e)),
            ('an error for each installer that cannot tell', c.post.llen(e) == cannot.count(*(fi(c) + [n])))]

    @staticmethod
    def inv(c):
        r, e = c.l('uninstalled'), c.l('errors')
        return filter_uninstalled.filtered(c, c.h, r, c.idx) + [
            ('lists', c.forall(1, lambda i: Imp(ok(i, c.h.llen(r)), And(M.V.t2b(c.h.at(r, i)) != r, M.V.t2b(
                c.h.at(r, i)) != e)), lambda i: [c.h.at(r, i)], [I])),
            ('errors', c.h.llen(c.l('errors')) == cannot.count(*(fi(c) + [c.idx])))]
    loops = {0: inv}


# ------------------------------------------------------------------ prerequisites (as events)
def general(i, os_tuple, fix, inter):
    return M.vtuple([STR('general prerequisites'), i, os_tuple, M.vtuple([fix, inter])])


def special(i, cont, os_tuple, fix, inter):
    return M.vtuple([STR('install prerequisites'), i, cont, M.vtuple([os_tuple, fix, inter])])


def event(c, v):
    return [('event', And(c.post.trn() == c.pre.trn() + 1, c.post.tr(c.pre.trn()) == v))]


def trace(f=None):
    return {'tr': None, 'trn': None}


method('Installer.check_general_prerequisites', ['self', 'os_tuple', 'fix_unsatisfied', 'interactive'], 'any', lambda c: event(
    c, general(c.a.self, c.a.os_tuple, c.a.fix_unsatisfied, c.a.interactive)), raises_={'Exception': None}, modifies_=trace(),
    exc=lambda c, e: event(c, general(c.a.self, c.a.os_tuple, c.a.fix_unsatisfied, c.a.interactive)))
method('Installer.check_install_prerequisites', ['self', 'resolved', 'os_tuple', 'fix_unsatisfied', 'interactive'], 'any', lambda c: event(
    c, special(c.a.self, content(c.pre, c.a.resolved), c.a.os_tuple, c.a.fix_unsatisfied, c.a.interactive)),
    raises_={'Exception': None}, modifies_=trace(), exc=lambda c, e: event(
        c, special(c.a.self, content(c.pre, c.a.resolved), c.a.os_tuple, c.a.fix_unsatisfied, c.a.interactive)))


def is_check(v):
    return Or(*[And(M.tup_is(v, 4), M.V.t4a(v) == STR(x + ' prerequisites')) for x in ('general', 'install')])


def only_checks(H, t0, t1):
    """nothing but checks of prerequisites happens between the times"""
    return M.forall(1, lambda k: Imp(And(k >= t0, k < t1), is_check(H.tr(k))), lambda k: [H.tr(k)], [I])


def the_inst(c, x):
    return IN.fnd(*(plugs(c) + [x]))


def wfos(c):
    s = c.pre.field(c.a.installer_context, 'os_support')
    return wfic(c) + [('os plugins', tfield(c.pre, s, 'os_plugins', 'list[OS]'))]


@contract
class check_general(Contract):
    key = IP + 'check_general_prerequisites'
    types = {'installer_names': 'list[str]', 'installer_context': 'InstallerContext'}
    result = 'none'
    raises = {'Exception': None}
    modifies = dict(trace(), **{'f._os': None})
    requires = wfos

    def checked(c, H, os_tuple, n):
        t0, a = c.pre.trn(), c.a
        return [('as many as installers', H.trn() == t0 + n),
                ('once each, in order', M.forall(1, lambda i: Imp(ok(i, n), H.tr(t0 + i) == general(
                    the_inst(c, c.pre.at(a.installer_names, i)), os_tuple, a.fix_unsatisfied, a.interactive)), lambda i: [
                        c.pre.at(a.installer_names, i), H.tr(t0 + i)], [I])),
                ('all known', M.forall(1, lambda i: Imp(ok(i, n), Not(missing(c, c.pre.at(a.installer_names, i)))), lambda i: [
                    c.pre.at(a.installer_names, i)], [I])),
                ('checks', only_checks(H, t0, H.trn()))]

    def ens_exc(c, e):
        return [('checks', only_checks(c.post, c.pre.trn(), c.post.trn()))]

    def ensures(c):
        return check_general.checked(c, c.post, IN.os_tuple(c.post, c.a.installer_context), c.pre.llen(c.a.installer_names))

    @staticmethod
    def inv(c):
        return check_general.checked(c, c.h, c.l('os_tuple'), c.idx)
    loops = {0: inv}


@contract
class check_install(Contract):
    key = IP + 'check_install_prerequisites'
    types = {'resolutions_map': 'dict[str,list]', 'installer_context': 'InstallerContext'}
    result = 'none'
    raises = {'Exception': None}
    modifies = dict(trace(), **{'f._os': None})
    requires = wfos

    def ev(c, x, os_tuple):
        return special(the_inst(c, x), content(c.pre, c.pre.get(c.a.resolutions_map, x)), os_tuple, c.a.fix_unsatisfied, c.a.interactive)

    def checked(c, H, os_tuple, done):
        t0, d = c.pre.trn(), c.a.resolutions_map
        there = lambda i: And(i >= t0, i < H.trn())
        ev = lambda x: check_install.ev(c, x, os_tuple)
        of = lambda i: M.V.t4b(H.tr(i)) 
        return [('every installer', M.forall(1, lambda x: Imp(done(x), And(Not(missing(c, x)), somewhere(lambda i: And(
                    there(i), H.tr(i) == ev(x)), H.tr))), lambda x: [c.pre.get(d, x)])),
                ('nothing else', M.forall(1, lambda i: Imp(there(i), M.exists(1, lambda x: And(done(x), H.tr(i) == ev(x)), pats=lambda x: [
                    c.pre.get(d, x)])), lambda i: [H.tr(i)], [I])),
                ('once', M.forall(2, lambda i, j: Imp(And(i >= t0, i < j, j < H.trn()), c.pre.field(of(i), 'name') != c.pre.field(
                    of(j), 'name')), lambda i, j: [z3.MultiPattern(H.tr(i), H.tr(j))], [I, I])),
                ('checks', only_checks(H, t0, H.trn()))]

    def ens_exc(c, e):
        return [('checks', only_checks(c.post, c.pre.trn(), c.post.trn()))]

    def ensures(c):
        return check_install.checked(c, c.post, IN.os_tuple(c.post, c.a.installer_context), lambda x: c.pre.has(c.a.resolutions_map, x))

    @staticmethod
    def inv(c):
        return check_install.checked(c, c.h, c.l('os_tuple'), c.done)
    loops = {0: inv}


# ------------------------------------------------------------------ installation (commands and detections as events)
_failed = z3.Function('rs:failed', I, z3.BoolSort())         # the command of this event failed / its package was not detected
failures = Filter('rs:failures', [], _failed)
_next = Least('rs:next failure', [I], lambda t, k: And(k >= t, _failed(k)), lambda t, k: _failed(k))
B_ = z3.BoolSort()
_NOCMD = z3.Function('rs:cannot compose', M.V, M.V, M.V, M.V, B_)
_NCMD = z3.Function('rs:commands', M.V, M.V, M.V, M.V, I)
_CMD = z3.Function('rs:command', M.V, M.V, M.V, M.V, I, M.V)


_o4 = z3.Consts('o1!nc o2!nc o3!nc o4!nc', M.V)
M.OPAQUE['rs:commands'] = [z3.ForAll(_o4, _NCMD(*_o4) >= 0, patterns=[_NCMD(*_o4)])]     # it is the length of a list


def run(cmd):
    return M.vtuple([STR('run'), cmd])


def detect(i, item):
    return M.vtuple([STR('detect'), i, item])


def fails(t0, t1):
    return failures.count(t1) - failures.count(t0)


def order(c, H=None):
    return [c.a.self, content(H or c.pre, c.a.resolved), c.a.interactive, c.a.reinstall]


method('Installer.get_install_commands', ['self', 'resolved', 'interactive', 'reinstall'], 'list[list[str]]', lambda c: [
    ('can compose', Not(_NOCMD(*order(c)))), ('number', c.post.llen(c.res) == _NCMD(*order(c))),
    ('new list', M.rid(c.res) >= c.alloc0),
    ('commands', c.forall(1, lambda i: Imp(ok(i, c.post.llen(c.res)), And(M.rid(c.post.at(c.res, i)) >= c.alloc0, content(c.post, c.post.at(c.res, i)) == _CMD(*(order(c) + [i])))),
                          lambda i: [c.post.at(c.res, i)], [I]))],
    raises_={'InstallerError': lambda c: _NOCMD(*order(c)), 'Exception': None})
method('Installer.is_installed', ['self', 'resolved'], 'bool', lambda c: event(c, detect(c.a.self, c.a.resolved)) + [
    ('answer', (c.res == M.vbool(True)) == Not(_failed(c.pre.trn())))],
    raises_={'InstallerError': None, 'Exception': None}, modifies_=trace(),
    exc=lambda c, e: event(c, detect(c.a.self, c.a.resolved)) + [('no answer', _failed(c.pre.trn()))] if e == 'InstallerError' else [])


def h_call(ex, st, args, kw, X, node):
    if len(args) != 1 or kw:
        raise M.Unsupported('subprocess.call with options')
    cmd = ex.sv(st, args[0])
    st = ex.need(st, st.H.islist(cmd.t), X, 'TypeError')
    if st is None:
        return []
    ex.raise_(st.copy(), 'OSError', X)
    k = st.H.trn()
    code = M.fconst('exitcode', I)
    st.assume((code != 0) == _failed(k))
    ex.event(st, run(content(st.H, cmd.t)))
    return [(st, E.SV(M.V.int(code), ('int',)))]


db.externals['subprocess.call'] = h_call


class _Template(string.Template):
    delimiter = '@'


def template_ok(text):
    """xylem.terminal_color.fmt accepts the text"""
    for a, b in (('@!', 'boldon'), ('@/', 'italicson'), ('@_', 'ulon'), ('@|', 'reset')):
        text = text.replace(a, '@{%s}' % b)
    try:
        _Template(text).substitute(dict((k, '') for k in ANSI))
        return True
    except (ValueError, KeyError):
        return False


ANSI = ['reset', 'boldon', 'italicson', 'ulon']


def h_fmt(ex, st, args, kw, X, node):
    """color annotations: an invalid one raises an exception"""
    v = ex.sv(st, args[0])
    lit = E.str_lit(v.t)
    r = ex.ssv('fmt')
    if v.t.get_id() in ex.formatted:
        text, vals, _ = ex.formatted[v.t.get_id()]
        sure = all(x.ty[0] == 'int' for x in vals) and template_ok(text)
    else:
        sure = lit is not None and template_ok(lit)
        if sure:
            ex.holes[r.t.get_id()] = (len(re.findall('%', lit.replace('%%', ''))), 'fmt:' + lit, r.t)
    if not sure:
        ex.raise_(st.copy(), 'ValueError', X)
        ex.raise_(st.copy(), 'KeyError', X)
    return [(st, r)]


db.externals['xylem.terminal_color:fmt'] = h_fmt


def seg_end(t, n, nres, cont):
    """end of a run of n commands and nres detections that starts at time t"""
    f = _next(t, t + n)
    return Ite(Or(cont, f == t + n), t + n + nres, f + 1)


_SA = [M.SeqS, I, I, M.V, M.V, M.V, M.V]
segment_ = z3.Function('rs:segment', *(_SA + [B_]))
_unfold = z3.Function('rs:unfold', *(_SA + [B_]))


def ran(tr, t0, t1, *o):
    """the events from t0 to t1 are the composed commands, then the detections of the resolutions"""
    n = _NCMD(*o)
    at = lambda k: z3.Select(tr, k)
    return [('commands', M.forall(1, lambda k: Imp(And(k >= t0, k < t0 + n, k < t1), at(k) == run(_CMD(*(list(o) + [k - t0])))), lambda k: [
        at(k)], [I])),
        ('detections', M.forall(1, lambda k: Imp(And(k >= t0 + n, k < t1), at(k) == detect(o[0], cnth(o[1], k - t0 - n))), lambda k: [
            at(k)], [I]))]


def _segment_axioms():
    tr, tr2 = z3.Consts('tr!sg tr2!sg', M.SeqS)
    t0, t1 = z3.Ints('t0!sg t1!sg')
    o = list(z3.Consts('o1!sg o2!sg o3!sg o4!sg', M.V))
    a, b = [tr, t0, t1] + o, [tr2, t0, t1] + o
    k = z3.Function('trace differs', M.SeqS, M.SeqS, I, I, I)(tr, tr2, t0, t1)
    M.OPAQUE['rs:segment'] = [z3.ForAll([tr2] + a, z3.Implies(segment_(*a), z3.Or(segment_(*b), z3.And(
        k >= t0, k < t1, z3.Select(tr, k) != z3.Select(tr2, k)))), patterns=[z3.MultiPattern(segment_(*a), segment_(*b))])]
    M.OPAQUE['rs:unfold'] = [z3.ForAll(a, z3.And(_unfold(*a), segment_(*a) == z3.And(*[x for _, x in ran(*a)])), patterns=[_unfold(*a)])]


_segment_axioms()


def segment(H, t0, t1, o):
    return segment_(H.comp('tr'), t0, t1, *o)


@contract
class install_resolutions(Contract):
    key = IP + 'install_resolutions'
    types = {'installer_name': 'str', 'resolutions': 'list', 'installer_context': 'InstallerContext', 'interactive': 'bool',
             'reinstall': 'bool', 'simulate': 'bool', 'continue_on_error': 'bool'}
    result = 'list'
    raises = {'XylemInternalError': None, 'OSError': None}
    modifies = trace()
    requires = wfic

    def parts(c):
        i = the_inst(c, c.a.installer_name)
        o = [i, content(c.pre, c.a.resolutions), c.a.interactive, c.a.reinstall]
        return i, o, _NCMD(*o)

    def nothing(c):
        i, o, n = install_resolutions.parts(c)
        return Or(_NOCMD(*o), n == 0, c.a.simulate == M.vbool(True))

    def ensures(c):
        i, o, n = install_resolutions.parts(c)
        H, t0, t1, no = c.post, c.pre.trn(), c.post.trn(), install_resolutions.nothing(c)
        cont = c.a.continue_on_error == M.vbool(True)
        return [('installer', Not(missing(c, c.a.installer_name))), ('fresh', M.rid(c.res) >= c.alloc0),
                ('install errors', c.forall(1, lambda j: Imp(ok(j, H.llen(c.res)), H.inst(H.at(c.res, j), 'InstallError')), lambda j: [
                    H.at(c.res, j)], [I])),
                ('nothing run', Imp(no, And(t1 == t0, H.llen(c.res) == Ite(_NOCMD(*o), 1, 0)))),
                ('all or up to the first failure', Imp(Not(no), t1 == seg_end(t0, n, c.pre.llen(c.a.resolutions), cont))),
                ('each failure reported', Imp(Not(no), H.llen(c.res) == fails(t0, t1)))] + [
                    ('commands and detections', Imp(Not(no), segment(H, t0, t1, o)))]

    def hints(c):
        H = c.post
        i, o, n = install_resolutions.parts(c)
        return [('unfold', _unfold(H.comp('tr'), c.pre.trn(), H.trn(), *o))]

    def ens_exc(c, e):
        return [('nothing run when simulating', Imp(c.a.simulate == M.vbool(True), c.post.trn() == c.pre.trn()))]

    @staticmethod
    def inv_run(c):
        i, o, n = install_resolutions.parts(c)
        t0, H = c.pre.trn(), c.h
        return [('time', H.trn() == t0 + c.idx), ('reported', H.llen(c.l('errors')) == fails(t0, H.trn())),
                ('stop', Or(c.a.continue_on_error == M.vbool(True), _next(t0, t0 + n) >= t0 + c.idx)),
                ('only errors', inst_errors(c, H)),
                ] + ran(H.comp('tr'), t0, H.trn(), *o)

    @staticmethod
    def inv_detect(c):
        i, o, n = install_resolutions.parts(c)
        t0, H = c.pre.trn(), c.h
        return [('time', H.trn() == t0 + n + c.idx), ('reported', H.llen(c.l('errors')) == fails(t0, H.trn())),
                ('only errors', inst_errors(c, H)),
                ] + ran(H.comp('tr'), t0, H.trn(), *o)
    loops = {1: inv_run, 2: inv_detect}


def inst_errors(c, H):
    e = c.l('errors')
    return c.forall(1, lambda j: Imp(ok(j, H.llen(e)), H.inst(H.at(e, j), 'InstallError')), lambda j: [H.at(e, j)], [I])


# ------------------------------------------------------------------ all groups
# plugin names, plugins and their number, digest of the groups, interactive, reinstall, simulate, continue, start
GS = [A, M.SeqS, I, M.V, M.V, M.V, M.V, M.V, I]
YES = M.vbool(True)


def g_order(nm, ps, np, D, inter, rein, sim, cont, t0, k):
    g = cnth(D, k)
    return [IN.fnd(nm, ps, np, M.V.t2a(g)), M.V.t2b(g), inter, rein]


def g_refused(*a):
    return _NOCMD(*g_order(*a))


def g_nothing(*a):
    o = g_order(*a)
    return Or(_NOCMD(*o), _NCMD(*o) == 0, a[6] == YES)


def g_end(*a):
    k, t = a[-2:]
    b = a[:-1]
    o = g_order(*b)
    return Ite(g_nothing(*b), t, seg_end(t, _NCMD(*o), clen(o[1]), a[7] == YES))


# start of group k
starts_at = Rec('rs:start', GS, lambda *a: a[8], g_end)
refusals = Filter('rs:refusals', GS, g_refused)


def g_bad(*a):
    """an error is reported for the group"""
    t = starts_at(*a)
    return Or(g_refused(*a), And(Not(g_nothing(*a)), fails(t, g_end(*(list(a) + [t]))) > 0))


first_bad = Least('rs:first bad', GS, g_bad, lambda *a: cnth(a[3], a[-1]))


def g_stop(g, n):
    """number of groups that are processed"""
    f = first_bad(*(g + [n]))
    return Ite(Or(g[7] == YES, f == n), n, f + 1)


def g_events(g, H, n):
    """the events of the first n groups"""
    T = lambda k: starts_at(*(g + [k]))
    return [('commands and detections', M.forall(1, lambda k: Imp(And(ok(k, n), Not(g_nothing(*(g + [k])))), segment(
        H, T(k), T(k + 1), g_order(*(g + [k])))), lambda k: [T(k)], [I]))]


@contract
class install_resolved(Contract):
    key = IP + 'install_resolved'
    types = {'resolved': 'list[tuple[str,list]]', 'installer_context': 'InstallerContext', 'interactive': 'bool',
             'reinstall': 'bool', 'simulate': 'bool', 'continue_on_error': 'bool'}
    result = 'list'
    raises = {'XylemInternalError': None, 'OSError': None}
    modifies = trace()
    requires = wfic

    def groups(c, H, q):
        return plugs(c) + [digest(H, q), c.a.interactive, c.a.reinstall, c.a.simulate, c.a.continue_on_error, c.pre.trn()]

    def ensures(c):
        H, q = c.post, c.wit('resolved')
        g = install_resolved.groups(c, H, q)
        n = g_stop(g, H.llen(q))
        return squashed(c.pre, c.a.resolved, H, q) + [
            differ(H, q), ('fresh', M.rid(c.res) >= c.alloc0),
            ('all groups or up to the first with an error', H.trn() == starts_at(*(g + [n]))),
            ('each failure reported', H.llen(c.res) == fails(c.pre.trn(), H.trn()) + refusals.count(*(g + [n]))),
            ('nothing run when simulating', Imp(c.a.simulate == YES, H.trn() == c.pre.trn()))] + g_events(g, H, n)

    @staticmethod
    def hints(c):
        H, q = c.post, c.wit('resolved')
        D = c.marks[0]
        g = install_resolved.groups(c, D, q)
        n = g_stop(g, H.llen(q))
        lst = lambda H, k: M.V.t2b(H.at(q, k))
        s, ll = c.pre.lseq(c.a.resolved), c.pre.comp('ll')
        grp = lambda i: groups.group(ll, s, i)
        return [('same groups', digest(H, q) == digest(D, q)), ('same number', H.llen(q) == D.llen(q)),
                ('same lists', M.forall(1, lambda k: Imp(ok(k, D.llen(q)), And(lst(H, k) == lst(D, k), H.lseq(lst(H, k)) == D.lseq(lst(D, k)))), lambda k: [
                    H.at(q, k)], [I])),
                ('groups of elements', M.forall(1, lambda i: Imp(ok(i, c.pre.llen(c.a.resolved)), ok(grp(i), D.llen(q))), lambda i: [z3.Select(s, i), grp(i)], [I])),
                ('start', starts_at(*(g + [z3.IntVal(0)])) == c.pre.trn()), ('end', H.trn() == starts_at(*(g + [n]))),
                ('last group', Imp(And(n > 0, Not(g_nothing(*(g + [n - 1])))), segment(H, starts_at(*(g + [n - 1])), starts_at(*(g + [n])), g_order(*(
                    g + [n - 1])))))] + [('groups before: ' + l, b) for l, b in g_events(g, H, n - 1)] + g_events(g, H, n) + [
                    ('as they are afterwards', And(*[a == b for a, b in zip(g, install_resolved.groups(c, H, q))]))]

    def ens_exc(c, e):
        return [('nothing run when simulating', Imp(c.a.simulate == YES, c.post.trn() == c.pre.trn()))]

    @staticmethod
    def inv(c):
        g = install_resolved.groups(c, c.entry, c.l0('resolved'))
        H, e = c.h, c.l('all_errors')
        t0 = c.pre.trn()
        return [('time', H.trn() == starts_at(*(g + [c.idx]))),
                ('errors', H.llen(e) == fails(t0, H.trn()) + refusals.count(*(g + [c.idx]))),
                ('continue', Or(c.a.continue_on_error == YES, first_bad(*(g + [c.n])) >= c.idx)),
                ('none so far', Or(c.a.continue_on_error == YES, H.llen(e) == 0)),
                ('simulated', Imp(c.a.simulate == YES, H.trn() == t0))] + g_events(g, H, c.idx)
    loops = {0: inv}

    def hint(c):
        g = install_resolved.groups(c, c.entry, c.l0('resolved'))
        k = c.k
        o = g_order(*(g + [k]))
        l = M.V.t2b(c.hs.at(c.l0('resolved'), k))
        return [('resolutions', o[1] == content(c.hs, l)), ('end', c.h.trn() == starts_at(*(g + [k + 1])))]
    loophints = {0: staticmethod(hint)}


# ------------------------------------------------------------------ the whole operation
import contracts.resolve as RS


def same_groups(G, l, H, m):
    """list of pairs l in heap G and m in heap H: the same names with the same resolutions"""
    return [('number', G.llen(l) == H.llen(m)),
            ('names and resolutions', M.forall(1, lambda k: Imp(ok(k, G.llen(l)), And(
                M.V.t2a(G.at(l, k)) == M.V.t2a(H.at(m, k)), content(G, M.V.t2b(G.at(l, k))) == content(H, M.V.t2b(H.at(m, k))))), lambda k: [
                    G.at(l, k)], [I]))]


def labelled(what, items):
    return [('%s: %s' % (what, x[0]),) + tuple(x[1:]) for x in items]


@contract
class install(Contract):
    key = IP + 'install'
    types = {'xylem_keys': 'list', 'all_keys': 'bool', 'interactive': 'bool', 'reinstall': 'bool', 'simulate': 'bool',
             'continue_on_error': 'bool', 'fix_prerequisites': 'bool', 'config': 'ConfigDict', 'database': 'RulesDatabase',
             'sources_context': 'any', 'installer_context': 'InstallerContext'}
    result = 'tuple[list,list]'
    raises = {'Exception': None}
    modifies = dict(trace(), **{'f.options': None, 'f._os': None})
    requires = RS.resolve.requires

    def ensures(c):
        H, r, e = c.post, M.V.t2a(c.res), M.V.t2b(c.res)
        t0, t1 = c.pre.trn(), c.post.trn()
        cont, re, sim = [x == YES for x in (c.a.continue_on_error, c.a.reinstall, c.a.simulate)]
        run_ = c.call('install_resolved')
        f = c.call('filter_uninstalled')
        out = [('resolution errors', r == M.V.t2b(c.call('resolve').res)),
               ('stops after resolution errors', Imp(And(Not(cont), H.llen(r) > 0), And(t1 == t0, H.llen(e) == 0)))]
        if run_ is None:
            return out + [('returns early for a reason', And(Not(cont), Or(H.llen(r) > 0, And(Not(re), H.llen(e) > 0)))),
                          ('nothing run', only_checks(H, t0, t1))]
        g = run_.pre
        rs, sq, nm, cg, ci, mp = [c.call(x) for x in ('resolve', '_squash_resolutions', '_installer_names',
                                                      'check_general_prerequisites', 'check_install_prerequisites', '_map_resolutions')]
        if None in (rs, sq, nm, cg, ci, mp):
            raise M.Unsupported('unknown composition of the installation')
        rt = M.V.t2a(rs.res)
        tuples = sq.a.resolved
        out += [
            ('what is asked for', And(rs.a.xylem_keys == c.a.xylem_keys, rs.a.all_keys == c.a.all_keys, rs.a.installer_context == c.a.installer_context, rs.pre.trn() == t0, sq.pre.trn() == t0)),
            # grouping: all tuples found, in order
            ('tuples found', And(sq.pre.llen(tuples) == rs.post.llen(rt), M.forall(1, lambda k: Imp(ok(k, rs.post.llen(rt)), sq.pre.at(
                tuples, k) == M.V.t2b(rs.post.at(rt, k))), lambda k: [rs.post.at(rt, k)], [I]))),
            # prerequisites of each installer involved, before anything else
            ('general prerequisites of all installers', And(
                cg.a.installer_names == nm.res, cg.pre.trn() == t0, cg.a.installer_context == c.a.installer_context,
                cg.a.interactive == c.a.interactive, cg.a.fix_unsatisfied == c.a.fix_prerequisites))]
        out += labelled('installers of all groups', same_groups(sq.post, sq.res, nm.pre, nm.a.resolved))
        out += labelled('names unchanged', [('all', M.forall(1, lambda k: Imp(ok(k, nm.post.llen(nm.res)), cg.pre.at(nm.res, k) == nm.post.at(nm.res, k)), lambda k: [
            cg.pre.at(nm.res, k)], [I])), ('number', cg.pre.llen(nm.res) == nm.post.llen(nm.res))])
        if f is not None:
            out += [('filtered', And(f.a.installer_context == c.a.installer_context, Not(re)))]
            out += labelled('all groups filtered', same_groups(sq.post, sq.res, f.pre, f.a.resolved))
            G, todo = f.post, M.V.t2a(f.res)
            # what cannot be determined is an error unless going on is requested
            out += [('no unreported failure to filter', Imp(Not(cont), f.post.llen(M.V.t2b(f.res)) == 0))]
        else:
            out += [('everything reinstalled', re)]
            G, todo = sq.post, sq.res
        out += labelled('prerequisites of the groups to install', same_groups(G, todo, mp.pre, mp.a.resolved))
        out += labelled('prerequisites checked once', [
            ('for the groups', ci.a.resolutions_map == mp.res), ('then', ci.pre.trn() == cg.post.trn()), ('before', g.trn() == ci.post.trn()),
            ('context', ci.a.installer_context == c.a.installer_context),
            ('options', And(ci.a.interactive == c.a.interactive, ci.a.fix_unsatisfied == c.a.fix_prerequisites))])
        out += labelled('prerequisites unchanged', [('all', M.forall(1, lambda x: And(ci.pre.get(mp.res, x) == mp.post.get(mp.res, x), Imp(
            mp.post.has(mp.res, x), content(ci.pre, mp.post.get(mp.res, x)) == content(mp.post, mp.post.get(mp.res, x)))), lambda x: [
                ci.pre.get(mp.res, x)]))])
        out += labelled('groups to install', same_groups(G, todo, g, run_.a.resolved))
        out += [('options', And(*[getattr(run_.a, x) == getattr(c.a, x) for x in (
            'installer_context', 'interactive', 'reinstall', 'simulate', 'continue_on_error')])),
            ('only checks before', only_checks(H, t0, g.trn())), ('the installation is the end', run_.post.trn() == t1),
            ('no command when simulating', Imp(sim, only_checks(H, t0, t1))),
            ('installation errors', e == run_.res), ('all reported', H.llen(e) == run_.post.llen(e))]
        return out

    def ens_exc(c, e):
        return [('no command when simulating', Imp(c.a.simulate == YES, only_checks(c.post, c.pre.trn(), c.post.trn())))]
