"""C17: the parsed grammar is what is written, in the order written."""
from base import *
import front
import lowering
import notation
import prims


def check(ctx, rep, tier):
    F = front.Front(ctx, rep)
    F.through()
    n = 0
    for ty in prims.AST_TYPES:
        try:
            t = notation.Text(ctx, ty, rep)
            n += t.run()
        except Undecided as e:
            rep.und('text', ty, str(e)[:200])
    rep.note('ways to accept a piece of grammar text', n)
    L = lowering.Lower(ctx, rep)
    L.terminals()
    L.non_terminals()
    L.productions()
    L.symbols()
    L.untouched()
    rep.assumptions.append('syn parses the pieces it provides (types, expressions, paths, literals) faithfully')
