"""Recognition of grammar parts in provenance terms (by the field names of the crate's own types)."""
from terms import *


def fld(t, name, adt=None):
    """Inner term when t is field `name` (of adt suffix) of something."""
    if t.op == 'field' and t.a[3] == name and (adt is None or (t.a[1] or '').split('::')[-1] == adt):
        return t.a[0]
    return None


class Sym(object):
    """Symbol number m of production p of non-terminal i of grammar g (indices are terms)."""

    def __init__(self, g, i, p, m, term):
        self.g, self.i, self.p, self.m, self.term = g, i, p, m, term

    def key(self):
        return (self.g, self.i, self.p, self.m)


def nt_at(t):
    """t = G.non_terminals[i] -> (G, i)"""
    if t.op == 'elem':
        g = fld(t.a[0], 'non_terminals', 'Grammar')
        if g is not None:
            return g, t.a[1]
    return None


def prod_at(t):
    """t = G.non_terminals[i].productions[p] -> (G, i, p)"""
    if t.op == 'elem':
        n = fld(t.a[0], 'productions', 'NonTerminal')
        if n is not None:
            r = nt_at(n)
            if r:
                return r[0], r[1], t.a[1]
    return None


def symbols_of(t):
    """t = <production>.symbols -> (G, i, p)"""
    p = fld(t, 'symbols', 'Production')
    return prod_at(p) if p is not None else None


def sym_at(t):
    """t = <production>.symbols[m].symbol -> Sym"""
    e = fld(t, 'symbol', 'BoundSymbol')
    if e is None:
        e = t
    if e.op == 'elem':
        r = symbols_of(e.a[0])
        if r:
            return Sym(r[0], r[1], r[2], e.a[1], t)
    return None


def payload(t):
    """t = <symbol>.Terminal.0 / .NonTerminal.0 -> ('Terminal', Sym)"""
    if t.op == 'field' and t.a[2] in ('Terminal', 'NonTerminal') and t.a[3] == '0':
        s = sym_at(t.a[0])
        if s:
            return t.a[2], s
    return None
