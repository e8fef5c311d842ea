"""Externals and predicates shared by the contract modules."""
import re

import z3

from pyvc import model as M
from pyvc import exec as E
from pyvc import builtins_ as B
from pyvc.db import db
from pyvc.model import And, Or, Not, Imp, Ite, ABSENT, NONE, over

EXC = 'xylem.exception:'
TXT = 'xylem.text_utils:'
STR = M.vstr


def h_raise_from(ex, st, args, kw, X, node):
    ex.raise_(st, args[0].name, X)
    return []


def h_chain(ex, st, args, kw, X, node):
    return [(st, ex.new_exc(st, args[0].name))]


def h_str(name):
    def h(ex, st, args, kw, X, node):
        return [(st, ex.ssv(name))]
    return h


def h_to_str(ex, st, args, kw, X, node):
    try:
        v = ex.sv(st, args[0])
    except M.Unsupported:
        return [(st, ex.ssv('to_str'))]
    r = B.uf_str('to_str', v.t)
    st.assume(Imp(M.V.is_str(v.t), r.t == v.t))
    return [(st, r)]


db.externals[EXC + 'raise_from'] = h_raise_from
db.externals[EXC + 'chain_exception'] = h_chain
db.externals[EXC + 'type_error_msg'] = h_str('msg')
db.externals[EXC + 'exc_to_str'] = h_str('msg')
db.externals[TXT + 'type_name'] = h_str('typename')
db.externals[TXT + 'to_str'] = h_to_str


# ------------------------------------------------------------------ regular expressions
def matches(pattern, v):
    """re.match(pattern, v) succeeds (v a str value)"""
    return B.uf_bool('re:' + pattern, v)


def h_re_match(ex, st, args, kw, X, node):
    pat = E.str_lit(ex.sv(st, args[0]).t)
    if pat is None or len(args) > 2 or kw:
        raise M.Unsupported('re.match with computed pattern')
    v = ex.sv(st, args[1])
    st = ex.need(st, M.V.is_str(v.t), X, 'TypeError')
    if st is None:
        return []
    # the pattern is evaluated on the literals of the program
    for s in list(M._str_names):
        st.assume(matches(pat, STR(s)) == z3.BoolVal(re.match(pat, s) is not None))
    t, f = ex.branch(st, matches(pat, v.t))
    out = []
    if t is not None:
        out.append((t, E.SV(M.V.op(M.fconst('match', M.I)))))
    if f is not None:
        out.append((f, ex.const(None)))
    return out


db.externals['re.match'] = h_re_match
