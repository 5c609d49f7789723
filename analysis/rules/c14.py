"""C14: expansion ends for every grammar."""
from base import *
import finite
import notation
import prims


def may_be_empty(ctx, rep):
    """Pieces of the notation whose parse function can succeed without reading anything."""
    out = set()
    texts = {}
    for ty in prims.AST_TYPES:
        try:
            texts[ty] = notation.Text(ctx, ty, rep)
        except Undecided as e:
            rep.und('text', ty, str(e)[:200])
    changed = True
    while changed:
        changed = False
        for ty, t in texts.items():
            if ty in out:
                continue
            F = finite.Finite(ctx, t.I, rep, ty, out)
            eat = {n.id for n in t.G.kind('parse') if F.consumes(n)}
            entry = [n for n in t.G.nodes if n.kind == 'entry']
            p = path(entry, lambda m: m.kind == 'ret' and not is_err(m.data[0]), lambda m: m.id in eat) if entry else True
            if p:
                out.add(ty)
                changed = True
    return out, texts


def is_err(v):
    return v.op == 'agg' and v.a[1] == 'Err' or v.op in ('perr',)


def check(ctx, rep, tier):
    empty, texts = may_be_empty(ctx, rep)
    rep.note('pieces of notation that may be empty', sorted(e.split('::')[-1] for e in empty))
    seen = set()
    total = {}
    for ty, t in texts.items():
        F = finite.Finite(ctx, t.I, rep, t.key, empty)
        F.run()
        finite.recursion(t.I, F.G, rep, t.key, seen)
        for k, v in F.n.items():
            total[k] = total.get(k, 0) + v
    descent(texts, empty, rep, ctx)
    I = ctx.run('parser')
    F = finite.Finite(ctx, I, rep, 'parser', empty)
    F.run()
    finite.recursion(I, F.G, rep, 'parser', seen)
    for k, v in F.n.items():
        total[k] = total.get(k, 0) + v
    for k, v in total.items():
        rep.note('loops: ' + k, v)


def descent(texts, empty, rep, ctx):
    """A parse function reaches itself only after reading something."""
    edges = {}
    for ty, t in texts.items():
        F = finite.Finite(ctx, t.I, rep, ty, empty)
        eat = {n.id for n in t.G.kind('parse') if F.consumes(n)}
        entry = [n for n in t.G.nodes if n.kind == 'entry']
        for n in t.G.nodes:
            # the attempt to read, whether it succeeds or not
            tn = n.data[1] if n.kind == 'parse' else n.data[0].a[0] if n.kind == 'cond' and n.data[0].op == 'parses' else None
            if tn in texts and path(entry, lambda m: m is n, lambda m: m.id in eat and m is not n, False):
                edges.setdefault(ty, set()).add(tn)
    for ty in texts:
        st, seen = list(edges.get(ty, ())), set()
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st += edges.get(x, ())
        w = texts[ty].w
        rep.check(ty not in seen, 'descent', w, 'reads something before it is entered again', 'is entered again before anything is read')
