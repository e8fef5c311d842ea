"""Small type language: hints for dispatch and semantic predicates."""
from . import model as M


def parse(s):
    if s is None:
        return ('any',)
    if isinstance(s, tuple):
        return s
    s = s.strip()
    if s.endswith('?'):
        return ('opt', parse(s[:-1]))
    if '[' in s:
        head, rest = s.split('[', 1)
        assert rest.endswith(']'), s
        args = _split(rest[:-1])
        head = head.strip()
        if head == 'list':
            return ('list', parse(args[0]))
        if head == 'set':
            return ('set', parse(args[0]))
        if head == 'dict':
            return ('dict', parse(args[0]), parse(args[1]))
        if head == 'tuple':
            return ('tuple', tuple(parse(a) for a in args))
        raise ValueError(s)
    if s == 'dict':
        return ('dict', ('any',), ('any',))
    if s in ('list', 'set'):
        return (s, ('any',))
    if s in ('any', 'str', 'bool', 'int', 'none', 'fun'):
        return (s,)
    return ('obj', s)


def _split(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '[':
            depth += 1
        if ch == ']':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


DICT_CLASSES = {'ConfigDict', 'Resolution'}


def typed(H, v, t, live=True):
    """Semantic predicate: in heap H, value v has type t."""
    t = parse(t)
    k = t[0]
    if k == 'any':
        # well-formedness only
        return M.Imp(M.V.is_ref(v), H.islive(v))
    if k == 'opt':
        return M.Or(v == M.NONE, typed(H, v, t[1], live))
    if k == 'str':
        return M.V.is_str(v)
    if k == 'bool':
        return M.V.is_bool(v)
    if k == 'int':
        return M.V.is_int(v)
    if k == 'none':
        return v == M.NONE
    if k == 'fun':
        return M.V.is_fun(v)
    if k == 'tuple':
        n = len(t[1])
        return M.And(M.tup_is(v, n), *[typed(H, M.tup_at(v, n, i), t[1][i])
                                       for i in range(n)])
    base = H.islive(v)
    if k == 'list':
        out = [base, H.islist(v), H.llen(v) >= 0]
        if t[1] != ('any',):
            out.append(M.forall(
                1, lambda j: M.Imp(M.And(j >= 0, j < H.llen(v)),
                                   typed(H, H.at(v, j), t[1])),
                lambda j: [H.at(v, j)], [M.I]))
        return M.And(*out)
    if k == 'set':
        out = [base, H.isset(v)]
        if t[1] != ('any',):
            out.append(M.forall(1, lambda q: M.Imp(H.has(v, q), typed(H, q, t[1])),
                                lambda q: [H.get(v, q)]))
        return M.And(*out)
    if k == 'dict':
        out = [base, H.isdict(v)]
        if t[1] != ('any',) or t[2] != ('any',):
            out.append(M.forall(
                1, lambda q: M.Imp(H.has(v, q),
                                   M.And(typed(H, q, t[1]) if t[1] != ('any',) else M.And(),
                                         typed(H, H.get(v, q), t[2]))),
                lambda q: [H.get(v, q)]))
        return M.And(*out)
    if k == 'obj':
        if t[1] in DICT_CLASSES:
            return M.And(base, H.isdict(v), H.inst(v, t[1]))
        return M.And(base, H.iskind(v, 'obj'), H.inst(v, t[1]))
    if k == 'exc':
        return M.And(base)
    raise ValueError(t)
