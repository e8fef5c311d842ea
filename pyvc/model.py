"""Logical model of Python values and of the heap (z3 terms).

Values: datatype V.  Heap: one z3 array per component
  dm  ref -> (V -> V)    dict/set contents, ABSENT = no entry
  ll  ref -> Int         list length
  le  ref -> (Int -> V)  list elements
  par/pk                 ghost owner (ref, key) of an object; -1 = unowned
  f.<attr> ref -> V      instance attributes
kind(ref) / cls(ref) are immutable functions of the reference.
"""
import z3

z3.set_param('auto_config', False)

STRING_MODE = 'opaque'
_str_ids = {}
_str_names = []


def setup(mode='opaque'):
    """Create the V sort; ``mode`` is 'opaque' (strings are atoms) or 'smt'."""
    global STRING_MODE, V, S
    STRING_MODE = mode
    S = z3.IntSort() if mode == 'opaque' else z3.StringSort()
    d = z3.Datatype('V')
    d.declare('absent')
    d.declare('none')
    d.declare('bool', ('b', z3.BoolSort()))
    d.declare('int', ('i', z3.IntSort()))
    d.declare('str', ('s', S))
    d.declare('ref', ('r', z3.IntSort()))
    d.declare('t0')
    d.declare('t1', ('t1a', d))
    d.declare('t2', ('t2a', d), ('t2b', d))
    d.declare('t3', ('t3a', d), ('t3b', d), ('t3c', d))
    d.declare('t4', ('t4a', d), ('t4b', d), ('t4c', d), ('t4d', d))
    d.declare('fun', ('fn', z3.IntSort()))
    d.declare('op', ('o', z3.IntSort()))
    V = d.create()
    g = globals()
    g['ABSENT'] = V.absent
    g['NONE'] = V.none
    g['TRUE'] = V.bool(z3.BoolVal(True))
    g['FALSE'] = V.bool(z3.BoolVal(False))
    g['MapS'] = z3.ArraySort(V, V)
    g['SeqS'] = z3.ArraySort(z3.IntSort(), V)
    g['EMPTY'] = z3.K(V, V.absent)
    g['kindf'] = z3.Function('kind', z3.IntSort(), z3.IntSort())
    g['clsf'] = z3.Function('cls', z3.IntSort(), z3.IntSort())
    g['instf'] = z3.Function('inst', z3.IntSort(), z3.IntSort(), z3.BoolSort())
    g['cardf'] = z3.Function('card', MapS, z3.IntSort())
    g['choosef'] = z3.Function('choose', MapS, V)
    g['deepeqf'] = z3.Function('deepeq', z3.IntSort(), V, V, z3.BoolSort())


K_DICT, K_LIST, K_SET, K_OBJ, K_EXC, K_ITER = 1, 2, 3, 4, 5, 6
KINDS = {'dict': K_DICT, 'list': K_LIST, 'set': K_SET, 'obj': K_OBJ,
         'exc': K_EXC}

I = z3.IntSort()


def str_id(text):
    if text not in _str_ids:
        _str_ids[text] = len(_str_names)
        _str_names.append(text)
    return _str_ids[text]


def str_name(i):
    if 0 <= i < len(_str_names):
        return _str_names[i]
    return None


def vstr(text):
    if STRING_MODE == 'opaque':
        return V.str(z3.IntVal(str_id(text)))
    return V.str(z3.StringVal(text))


def vint(i):
    return V.int(z3.IntVal(i) if isinstance(i, int) else i)


def vbool(b):
    return V.bool(z3.BoolVal(b) if isinstance(b, bool) else b)


def lit(x):
    """V term of a Python constant."""
    if x is None:
        return NONE
    if x is True or x is False:
        return vbool(x)
    if isinstance(x, int):
        return vint(x)
    if isinstance(x, str):
        return vstr(x)
    if isinstance(x, tuple):
        return vtuple([lit(y) for y in x])
    raise TypeError('no literal for %r' % (x,))


def vtuple(ts):
    n = len(ts)
    if n == 0:
        return V.t0
    if n > 4:
        raise Unsupported('tuple of length %d' % n)
    return [None, V.t1, V.t2, V.t3, V.t4][n](*ts)


def tup_is(t, n):
    return [V.is_t0, V.is_t1, V.is_t2, V.is_t3, V.is_t4][n](t)


def tup_at(t, n, i):
    acc = {1: [V.t1a], 2: [V.t2a, V.t2b], 3: [V.t3a, V.t3b, V.t3c],
           4: [V.t4a, V.t4b, V.t4c, V.t4d]}
    return acc[n][i](t)


def ref(r):
    return V.ref(r if not isinstance(r, int) else z3.IntVal(r))


def rid(v):
    """Reference number of a V term known to be a reference."""
    if z3.is_app(v) and v.decl().name() == 'ref' and v.num_args() == 1:
        return v.arg(0)
    return V.r(v)


class Unsupported(Exception):
    """Construct outside of the verifier's fragment."""


_cls_ids = {}


def cls_id(name):
    if name not in _cls_ids:
        _cls_ids[name] = len(_cls_ids) + 1
    return _cls_ids[name]


_fun_ids = {}


def fun_id(name):
    if name not in _fun_ids:
        _fun_ids[name] = len(_fun_ids) + 1
    return _fun_ids[name]


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


def fconst(base, sort):
    return z3.Const(fresh_name(base), sort)


def comp_sort(comp):
    if comp == 'dm':
        return z3.ArraySort(I, MapS)
    if comp == 'll':
        return z3.ArraySort(I, I)
    if comp == 'le':
        return z3.ArraySort(I, SeqS)
    if comp == 'par':
        return z3.ArraySort(I, I)
    if comp == 'pk':
        return z3.ArraySort(I, V)
    if comp == 'trn':
        return I
    if comp == 'tr':
        return SeqS
    if comp.startswith('f.'):
        return z3.ArraySort(I, V)
    if comp.startswith('g.'):
        return V
    raise KeyError(comp)


def sel(a, i):
    """Select with read-over-write simplification for syntactic cases."""
    while z3.is_store(a) if hasattr(z3, 'is_store') else False:
        break
    return z3.Select(a, i)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    return z3.Not(x)


def Imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


Ite = z3.If


class Heap(object):
    """Read-only view on heap components, used by the code and contracts."""

    def __init__(self, comps, alloc):
        self.c = comps          # dict comp -> z3 term
        self.alloc = alloc      # z3 Int

    def comp(self, name):
        if name not in self.c:
            # components are created lazily, with a fixed initial name
            self.c[name] = z3.Const('init.' + name, comp_sort(name))
        return self.c[name]

    # dict / set ---------------------------------------------------------
    def dmap(self, d):
        return z3.Select(self.comp('dm'), rid(d))

    def get(self, d, k):
        return z3.Select(self.dmap(d), k)

    def has(self, d, k):
        return self.get(d, k) != ABSENT

    def empty(self, d):
        return self.dmap(d) == EMPTY

    # list ---------------------------------------------------------------
    def llen(self, l):
        return z3.Select(self.comp('ll'), rid(l))

    def lseq(self, l):
        return z3.Select(self.comp('le'), rid(l))

    def at(self, l, i):
        return z3.Select(self.lseq(l), i if not isinstance(i, int) else z3.IntVal(i))

    # attributes ---------------------------------------------------------
    def field(self, o, name):
        return z3.Select(self.comp('f.' + name), rid(o))

    # ghost --------------------------------------------------------------
    def par(self, o):
        return z3.Select(self.comp('par'), rid(o))

    def par_r(self, r):
        return z3.Select(self.comp('par'), r)

    def pk(self, o):
        return z3.Select(self.comp('pk'), rid(o))

    def trn(self):
        return self.comp('trn')

    def tr(self, i):
        return z3.Select(self.comp('tr'), i)

    # predicates ---------------------------------------------------------
    def islive(self, v):
        return And(V.is_ref(v), rid(v) >= 0, rid(v) < self.alloc)

    def iskind(self, v, kind):
        return And(V.is_ref(v), kindf(rid(v)) == KINDS[kind])

    def isdict(self, v):
        return self.iskind(v, 'dict')

    def islist(self, v):
        return self.iskind(v, 'list')

    def isset(self, v):
        return self.iskind(v, 'set')

    def inst(self, v, cname):
        return And(V.is_ref(v), instf(clsf(rid(v)), z3.IntVal(cls_id(cname))))

    def owned(self, d, k):
        """Entry k of d is an object owned by d under k."""
        v = self.get(d, k)
        return And(V.is_ref(v), self.par(v) == rid(d), self.pk(v) == k)


def isstr(v):
    return V.is_str(v)


def over(a, *b):
    return Ite(a != ABSENT, a, over(*b)) if b else a


def forall(n, body, pats=None, sorts=None, names=None):
    """Universal quantifier; body and pats are functions of n variables."""
    sorts = sorts or [V] * n
    vs = [z3.Const(fresh_name('q'), s) for s in sorts]
    b = body(*vs)
    if z3.is_true(b):
        return b
    if pats is None:
        return z3.ForAll(vs, b)
    ps = pats(*vs)
    out = []
    for p in ps:
        out.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) and len(p) > 1
                   else (p[0] if isinstance(p, (list, tuple)) else p))
    try:
        return z3.ForAll(vs, b, patterns=out)
    except z3.Z3Exception:      # not usable as a pattern (an expression simplified)
        return z3.ForAll(vs, b)


OPAQUE = {}


def opaque(name, sorts, body, ret=None, comps=('dm',)):
    """Function with a definitional axiom, unfolded only where it is used.

    The first arguments are components of a heap; ``body`` receives a
    Heap in their place.
    """
    ret = ret if ret is not None else V
    n = len(comps)
    f = z3.Function(name, *([comp_sort(k) for k in comps] + list(sorts) + [ret]))
    hs = [z3.Const('%s!%s' % (k, name), comp_sort(k)) for k in comps]
    vs = hs + [z3.Const('x%d!%s' % (i, name), s) for i, s in enumerate(sorts)]
    t = f(*vs)
    OPAQUE[name] = z3.ForAll(vs, t == body(Heap(dict(zip(comps, hs)), z3.IntVal(0)), *vs[n:]), patterns=[t])
    return lambda H, *a: f(*([H.comp(k) for k in comps] + list(a)))


def exists(n, body, sorts=None, pats=None):
    if pats is not None:
        return z3.Not(forall(n, lambda *a: z3.Not(body(*a)), pats, sorts))
    sorts = sorts or [V] * n
    vs = [z3.Const(fresh_name('e'), s) for s in sorts]
    return z3.Exists(vs, body(*vs))


setup()
