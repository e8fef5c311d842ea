"""Contracts for xylem.util."""
from contracts.common import *
from contracts.rules_merge import hashable
from pyvc.db import Contract, contract
from pyvc.theory import first, inlist, dedup


@contract
class remove_duplicates(Contract):
    key = 'xylem.util:remove_duplicates'
    types = {'seq': 'list'}
    result = 'list'

    def requires(c):
        s = c.a.seq
        return [('hashable elements', c.forall(1, lambda j: Imp(And(j >= 0, j < c.pre.llen(s)), hashable(c.pre.at(s, j))),
                                               lambda j: [c.pre.at(s, j)], [M.I]))]

    def ensures(c):
        return [('fresh', M.rid(c.res) >= c.alloc0)] + dedup(c.post, c.res, c.pre, c.a.seq)

    @staticmethod
    def inv(c):
        r, it, s = c.l('$acc'), c.l('items'), c.a.seq
        return [('seen', c.forall(1, lambda x: c.h.has(it, x) == inlist(c.pre, s, x, c.idx),
                                  lambda x: [c.h.get(it, x), first(c.pre, s, x, c.idx)]))] + dedup(c.h, r, c.pre, s, c.idx)
    loops = {0: inv}
