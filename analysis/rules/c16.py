"""C16: ill-formed grammars are refused."""
from base import *
import front
import lowering
import notation
import prims


def check(ctx, rep, tier):
    F = front.Front(ctx, rep)
    F.errors()
    F.twice('TokenEnum', '`enum Token`')
    F.twice('TypeDef', '`type State`')
    F.missing()
    F.through()
    n = 0
    for ty in prims.AST_TYPES:
        try:
            t = notation.Text(ctx, ty, rep)
            n += t.run()
        except Undecided as e:
            rep.und('text', ty, str(e)[:200])
    rep.note('ways to accept a piece of grammar text', n)
    L = lowering.Lower(ctx, rep)
    L.refused()
    L.productions()
    L.symbols()
    rep.assumptions.append('syn reports text left over in a group or at the end (its documented contract), and a failed parse of a punctuation token, keyword, identifier or lifetime consumes nothing')


