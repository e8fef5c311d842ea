"""Shared helpers of the concrete oracles.

Every oracle module pNN.py defines
    CASES: {name: fn(inp) -> None (holds) | str (what failed)}
    gen(rng, tier): yields (case name, literal input[, nontrivial])
Inputs are Python literals (repr / ast.literal_eval round-trip), so a failing
one is written to a replay file and re-run against the real code.
The oracles use only the public functions named in the properties; a function
that does not exist under its name makes the case skip (never an alarm).
"""
import copy
import importlib
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(Exception):
    """The case cannot be evaluated on this tree (interface gone)."""


def need(dotted):
    """'xylem.mod:attr.attr' -> object, Skip if it does not exist."""
    mod, _, attr = dotted.partition(':')
    try:
        o = importlib.import_module(mod)
    except ImportError as e:
        raise Skip('no module %s (%s)' % (mod, e))
    for a in attr.split('.') if attr else []:
        if not hasattr(o, a):
            raise Skip('no %s' % dotted)
        o = getattr(o, a)
    return o


def outcome(f, *a, **k):
    """('ok', value) or ('exc', exception) -- only Exception subclasses."""
    try:
        return ('ok', f(*a, **k))
    except Skip:
        raise
    except Exception as e:
        return ('exc', e)


def exc_name(o):
    return '%s: %s' % (type(o[1]).__name__, str(o[1])[:160])


def dc(x):
    return copy.deepcopy(x)


def same(a, b):
    """Equality that distinguishes types (1 / True / 1.0), ignores dict order."""
    if type(a) is not type(b):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return False
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        return True
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def containers(x, out=None):
    """ids of all dicts/lists reachable in x."""
    out = {} if out is None else out
    if isinstance(x, dict):
        if id(x) in out:
            return out
        out[id(x)] = x
        for v in x.values():
            containers(v, out)
    elif isinstance(x, list):
        if id(x) in out:
            return out
        out[id(x)] = x
        for v in x:
            containers(v, out)
    return out


def fail(fmt, *a):
    return fmt % a if a else fmt


class Rec(object):
    """Plain record."""
    def __init__(self, **k):
        self.__dict__.update(k)
