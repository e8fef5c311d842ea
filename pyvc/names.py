"""Local names of contracts after a renaming in the code.

Invariants refer to locals by the names in contracts/locals.json (made by
tools/mklocals.py).  Where the code has renamed some, the new names are
guessed from how and in which order locals are bound.  A wrong guess can only
make a proof fail: what is proved is the invariant over the guessed local.
"""
import ast
import json
import os

_BASE = []


def base():
    if not _BASE:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'locals.json')
        _BASE.append(json.load(open(p)) if os.path.exists(p) else {})
    return _BASE[0]


class _Blank(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        return ast.copy_location(ast.Name('_' if n.id in self.names else n.id, n.ctx), n)


def bindings(node):
    """[(name, how)] of the locals, in order of the first binding."""
    out = []

    def targets(t, how, path=''):
        if isinstance(t, ast.Name):
            out.append((t.id, how, path))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                targets(x, how, path + '.%d' % i)
        elif isinstance(t, ast.Starred):
            targets(t.value, how, path)

    def walk(n):
        if isinstance(n, ast.Assign):
            walk(n.value)
            for t in n.targets:
                targets(t, n.value)
            return
        if isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets(n.target, n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            targets(n.target, ('for', n.iter))
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            targets(n.optional_vars, ('with', n.context_expr))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.append((n.name, ('except', n.type), ''))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append((n.name, ('def', None), ''))
            return
        elif isinstance(n, ast.Lambda):
            return
        for x in ast.iter_child_nodes(n):
            walk(x)
    for s in node.body if isinstance(node.body, list) else [node.body]:
        walk(s)
    names = {n for n, _, _ in out}
    seen, res = set(), []
    a = getattr(node, 'args', None)
    if a is not None:
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
    for n, how, path in out:
        if n in seen:
            continue
        seen.add(n)
        kind, e = how if isinstance(how, tuple) else ('=', how)
        text = ast.unparse(_Blank(names).visit(ast.parse(ast.unparse(e), mode='eval').body)) if e is not None else ''
        res.append([n, kind + path, text])
    return res


def alias(fi, name):
    """The current name of local ``name`` of the contract, or None."""
    old = base().get(fi.key)
    if old is None:
        return None
    old = old['locals']
    m = getattr(fi, '_alias', None)
    if m is None:
        cur = bindings(fi.node)
        have, had = {c[0] for c in cur}, {o[0] for o in old}
        new = [c for c in cur if c[0] not in had]
        gone = [o for o in old if o[0] not in have]
        m = {}
        for same in ((lambda o, c: o[1:] == c[1:]), (lambda o, c: o[1] == c[1]), (lambda o, c: True)):
            for o in list(gone):
                for c in new:
                    if same(o, c):
                        m[o[0]] = c[0]
                        new.remove(c)
                        gone.remove(o)
                        break
        fi._alias = m
    return m.get(name)


def params(node):
    a = node.args
    return [p.arg for p in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [p.arg for p in a.kwonlyargs]


def contract_params(fi, now):
    """Names of the parameters in the contract, for those of now."""
    old = base().get(fi.key)
    if old is None or len(old['params']) != len(now) or set(old['params']) == set(now):
        return list(now)
    return list(old['params'])


# ---------------------------------------------------------------- loops
KINDS = dict(For='for', While='while', ListComp='comp', SetComp='comp', DictComp='comp', GeneratorExp='comp')


def loop_text(fi, n):
    if isinstance(n, ast.While):
        e = n.test
    elif isinstance(n, ast.For):
        e = n.iter
    else:
        e = n.generators[0].iter
    own = {b[0] for b in bindings(fi.node)} | set(params(fi.node))
    return ast.unparse(_Blank(own).visit(ast.parse(ast.unparse(e), mode='eval').body))


def known(key):
    """Was the function there when the contracts were written?"""
    b = base()
    return not b or key in b['$functions']


def flat_loops(fi, depth=3):
    """Loops of a function in source order, with those of new helpers in place of their calls."""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return
        k = KINDS.get(type(n).__name__)
        if k:
            out.append((n, k, loop_text(fi, n)))
        for x in ast.iter_child_nodes(n):
            visit(x)
        if isinstance(n, ast.Call) and depth:
            f, g = n.func, None
            if isinstance(f, ast.Name):
                g = fi.module.functions.get(f.id)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and fi.cls is not None and f.value.id in ('self', 'cls', fi.cls.name):
                g = fi.cls.methods.get(f.attr)
            if g is not None and not known(g.key):
                out.extend(flat_loops(g, depth - 1))
    body = fi.node.body
    for s in body if isinstance(body, list) else [body]:
        visit(s)
    return out


def loops(fi):
    """id(loop) -> number of the loop in the contract (others: 1000 and up), or None if unknown."""
    old = base().get(fi.key)
    if old is None:
        return None
    m = getattr(fi, '_loops', None)
    if m is not None:
        return m
    cur = flat_loops(fi)
    old = [tuple(x) for x in old.get('loops', [])]
    m = {}
    if [o[0] for o in old] == [c[1] for c in cur] and len(set(old)) == len(old) and sorted(old) == sorted(c[1:] for c in cur):
        for c in cur:       # the same loops, possibly in another order
            m[id(c[0])] = old.index(c[1:])
    else:
        # best matching in order
        n, k = len(old), len(cur)
        best = [[0] * (k + 1) for _ in range(n + 1)]
        gain = lambda i, j: 0 if old[i][0] != cur[j][1] else 5 if old[i][1] == cur[j][2] else 2
        for i in range(n - 1, -1, -1):
            for j in range(k - 1, -1, -1):
                g = gain(i, j)
                best[i][j] = max(best[i + 1][j], best[i][j + 1], g + best[i + 1][j + 1] if g else 0)
        i = j = 0
        while i < n and j < k:
            g = gain(i, j)
            if g and best[i][j] == g + best[i + 1][j + 1]:
                m[id(cur[j][0])] = i
                i, j = i + 1, j + 1
            elif best[i][j] == best[i + 1][j]:
                i += 1
            else:
                j += 1
    x = 1000
    for c in cur:
        if id(c[0]) not in m:
            m[id(c[0])] = x
            x += 1
    fi._loops = m
    return m


# ---------------------------------------------------------------- frames
def adopt(fr, loc, outer):
    """Loops of a new helper belong to the contract of the caller."""
    a = fr.parent
    while a is not None and a.contract is None:
        a = a.parent
    if a is None or a.contract is None or known(fr.fi.key):
        return
    a = getattr(a, 'adopted', None) or a
    m = loops(a.fi)
    own = {k: m[k] for k in fr.loops if k in (m or {})}
    if not own:
        return
    fr.adopted, fr.outer, fr.loops = a, outer, {**fr.loops, **own}
    fr.contract, fr.pre = a.contract, a.pre
    fr.given = {}
    for n, v in outer.items():
        for p, w in loc.items():
            if n != p and v is w or getattr(v, 't', None) is not None and getattr(w, 't', None) is not None and v.t.eq(w.t):
                fr.given.setdefault(n, p)


def find(fr, loc, name):
    """(locals, name) under which local ``name`` of the contract is found now."""
    if name in loc:
        return loc, name
    if getattr(fr, 'adopted', None) is None:
        return loc, alias(fr.fi, name) or name
    p = fr.given.get(name)
    if p in loc:
        return loc, p
    l, n = find(fr.parent, fr.outer, name)
    if n in l:
        return l, n
    # bound by the caller only later
    old = {o[0]: o for o in base()[fr.adopted.fi.key]['locals']}
    o = old.get(name)
    mine = [c for c in bindings(fr.fi.node) if c[0] not in old]
    for same in ((lambda c: o[1:] == c[1:]), (lambda c: o[1] == c[1])):
        for c in mine if o else ():
            if same(c):
                return loc, c[0]
    return loc, name
