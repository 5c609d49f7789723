"""The emitted code as a template: the items (statics, functions, enums, impls) of the TokenStream returned by
generate_lr1_parser, with the loops and conditions under which they are emitted."""
import base
import tpl
from terms import *
from tpl import Tok, Grp, Hole, Lst, Item, Unk, istok, walk_nodes

ROOT = 'lr_codegen::generate_lr1_parser'
TABLE, AUTO, FIRST = 'lr1::build_lr1_table', 'lr1::generate_lr1_automaton', 'first::generate_first_table'
Undecided = base.Undecided


class Code(object):
    """An emitted item: kind, name (string term), its nodes, ctx = ((Item, facts), ...) around it."""

    def __init__(self, kind, name, nodes, ctx, generics=(), params=None, ret=None, body=None, value=None, ty=None, pub=False):
        self.kind, self.name, self.nodes, self.ctx = kind, name, nodes, ctx
        self.generics, self.params, self.ret, self.body, self.value, self.ty, self.pub = generics, params, ret, body, value, ty, pub
        self.inner = []
        self.owner = None

    def __repr__(self):
        return '%s %s' % (self.kind, show(self.name))

    def loops(self):
        return [(i, f) for i, f in self.ctx if i.iv is not None]

    def facts(self):
        out = frozenset()
        for i, f in self.ctx:
            out |= f
        return out


def name_of(n):
    """String term of an identifier node, or None."""
    if isinstance(n, Tok) and n.kind == 'i':
        return STR(n.text)
    if isinstance(n, Hole):
        t = n.term
        if t.op == 'ident':
            return t.a[0]
        return mk('disp', t)
    return None


def norm_name(t):
    """Names compare equal whether a part is written as an identifier or through its text."""
    if t.op == 'disp':
        return t.a[0] if t.a[0].op in ('str', 'cat') else t
    return t


def items(nodes, ctx=(), out=None):
    out = [] if out is None else out
    i = 0
    n = len(nodes)
    pub = False
    while i < n:
        x = nodes[i]
        if isinstance(x, Lst):
            for it in x.items:
                for f, ps in it.alts:
                    items(ps, ctx + ((it, f),), out)
            i += 1
            continue
        if istok(x, 'pub'):
            pub = True
            i += 1
            continue
        if istok(x, '#') and i + 1 < n and isinstance(nodes[i + 1], Grp):
            i += 2
            continue
        if isinstance(x, Tok) and x.text in ('static', 'const') and i + 1 < n and not istok(nodes[i + 1], 'fn'):
            j = i + 1
            while j < n and not istok(nodes[j], ';'):
                j += 1
            seg = nodes[i:j]
            nm = name_of(seg[1]) if len(seg) > 1 else None
            k = next((q for q, y in enumerate(seg) if istok(y, '=')), None)
            if nm is not None and k is not None:
                out.append(Code('static', norm_name(nm), seg, ctx, ty=seg[3:k], value=seg[k + 1:], pub=pub))
            i, pub = j + 1, False
            continue
        if isinstance(x, Tok) and x.text in ('enum', 'struct', 'fn', 'impl', 'mod', 'trait', 'type', 'use'):
            j = i + 1
            while j < n and not istok(nodes[j], ';') and not (isinstance(nodes[j], Grp) and nodes[j].delim == 'Brace'):
                if isinstance(nodes[j], Lst) and x.text == 'struct' and any(isinstance(y, Grp) and y.delim == 'Brace' for it in nodes[j].items for f, ps in it.alts for y in ps):
                    break
                j += 1
            seg = nodes[i:j + 1]
            nm = name_of(seg[1]) if len(seg) > 1 else None
            body = seg[-1] if seg and isinstance(seg[-1], Grp) and seg[-1].delim == 'Brace' else None
            c = Code(x.text, norm_name(nm) if nm is not None else None, seg, ctx, body=body, pub=pub)
            if x.text == 'fn':
                pi = next((q for q, y in enumerate(seg) if isinstance(y, Grp) and y.delim == 'Parenthesis'), None)
                if pi is not None:
                    c.params = seg[pi]
                    c.generics = seg[2:pi]
                    ai = next((q for q in range(pi, len(seg)) if istok(seg[q], '->')), None)
                    c.ret = seg[ai + 1:-1] if ai is not None else []
            if x.text == 'impl' and body is not None:
                # self type: last name before the generics of the type / the body
                c.inner = items(body.parts, ctx)
                names = []
                depth = 0
                for y in seg[1:-1]:
                    if istok(y, '<'):
                        depth += 1
                    elif istok(y, '>'):
                        depth -= 1
                    elif depth == 0 and name_of(y) is not None:
                        names.append(y)
                c.name = norm_name(name_of(names[-1])) if names else None
                for f in c.inner:
                    f.owner = c
            out.append(c)
            i, pub = j + 1, False
            continue
        i += 1
        if not isinstance(x, Tok) or x.text not in ('(', ):
            pub = False
    return out


class Emit(object):
    def __init__(self, ctx):
        for f in (TABLE, AUTO, FIRST):
            ctx.body(f)
        self.ctx = ctx
        self.I = I = ctx.run(ROOT, opaque=(TABLE, AUTO, FIRST), atomic=True)
        self.G = base.Graph(I)
        if not I.rets:
            raise Undecided('%s never returns' % ROOT)
        self.rets = [self.variant(r) for r in I.rets]

    def variant(self, r):
        v = base.unmemo(self.G, r.data[0])
        nodes = tpl.Norm().stream(v)
        nodes = prune(nodes, frozenset())
        its = items(nodes)
        allits = []
        for c in its:
            allits.append(c)
            allits.extend(c.inner)
        R = Ret(self, r, nodes, its, allits)
        used = set()
        for t in walk(v):
            if t.op == 'sym':
                used.add(t)
        R.syms = {t: self.I.atoms[t] for t in used if t in self.I.atoms}
        return R


class Ret(object):
    def __init__(self, E, node, nodes, top, allits):
        self.E, self.node, self.nodes, self.top, self.items = E, node, nodes, top, allits

    def find(self, kind, name=None):
        return [c for c in self.items if c.kind == kind and (name is None or c.name is name)]

    def one(self, kind, name, what):
        r = self.find(kind, name)
        if len(r) != 1:
            raise Undecided('%s: %d emitted items named %s' % (what, len(r), show(name)))
        return r[0]


def prune(nodes, ctx):
    """Drops alternatives that contradict the facts around them."""
    out = []
    for n in nodes:
        if isinstance(n, Grp):
            out.append(Grp(n.delim, prune(n.parts, ctx)))
        elif isinstance(n, Lst):
            its = []
            for it in n.items:
                alts = []
                for f, ps in it.alts:
                    g = tpl.simp_facts(f | ctx)
                    if g is None:
                        continue
                    alts.append((f, prune(ps, g)))
                its.append(Item(it.iv, it.count, alts))
            out.append(Lst(n.sep, n.trail, its))
        else:
            out.append(n)
    return out


# ---- sequences of elements -----------------------------------------------------------------------
def cells(nodes, what):
    """Element positions of a bracketed/parenthesised list: [(loops, facts, offset term, nodes)] flattened over
    alternatives; loops is the tuple of Items the element is repeated by."""
    res = []
    if len(nodes) == 0:
        return res, INT(0)
    lst = [n for n in nodes if isinstance(n, Lst)]
    if len(nodes) == 1 and isinstance(nodes[0], Lst):
        return list_cells(nodes[0], what)
    # written out elements separated by commas
    off = INT(0)
    cur = []
    for n in list(nodes) + [Tok(',', 'p')]:
        if istok(n, ','):
            if cur:
                if len(cur) == 1 and isinstance(cur[0], Lst) and cur[0].sep in (',', None) :
                    r, ln = list_cells(cur[0], what)
                    res += [(l, f, add(off, o), ps) for l, f, o, ps in r]
                    off = add(off, ln)
                else:
                    res.append(((), frozenset(), off, cur))
                    off = add(off, INT(1))
            cur = []
        elif isinstance(n, Lst) and n.trail and n.sep == ',' and not cur:
            r, ln = list_cells(n, what)
            res += [(l, f, add(off, o), ps) for l, f, o, ps in r]
            off = add(off, ln)
        else:
            cur.append(n)
    return res, off


def list_cells(l, what):
    res = []
    off = INT(0)
    for it in l.items:
        if it.iv is None:
            for f, ps in it.alts:
                res.append(((), f, off, ps))
            off = add(off, INT(1))
            continue
        for f, ps in it.alts:
            if len(ps) == 1 and isinstance(ps[0], Lst) and ps[0].sep is None:
                r, ln = list_cells(ps[0], what)
                for ls, f2, o, p2 in r:
                    res.append((((it, f),) + ls, f | f2, mk('nested', it.iv, o), p2))
            else:
                res.append((((it, f),), f, add(off, it.iv), ps))
        off = add(off, it.count) if it.count is not None else mk('unk', 'length', it.iv)
    return res, off


def short(G, m, want, I=None):
    """The list of length m, one element for each of want turns, comes out shorter for some inputs: the reason, or None."""
    found = []
    for x in [y for t in lin(m)[1] for y in (outer(t.a[0]) if t.op == 'len' else [t])]:
        L = x.a[1].a[0] if x.op == 'unk' and x.a[0] == 'length' and len(x.a) > 1 and x.a[1].op == 'iv' else x.a[0] if x.op == 'seqrep' else None
        if L is None:
            continue
        if x.op == 'seqrep':
            e, f = [a for a, p in x.a[2] if not p], [a for a, p in x.a[2] if p]
            if e and f:
                if x.a[3] is not want:
                    return None
                found.append(decisive(e, f, L))
                continue
        full = [n for n in G.exits.get(L, []) if n.data[1] is not None]
        early = [n for n in G.exits.get(L, []) if n.data[1] is None and not G.only_panics(n)]
        if early:
            if not full or any(n.data[1] is not want for n in full) or I is None:
                return None
            found.append(decisive([n.facts for n in early], [b[0].facts for b in I.loopinfo[L]['backs']], L))
    if len(found) != 1 or found[0] is None:
        return None
    return '%s is %s' % (show(found[0][0])[:150], found[0][1])


def outer(s):
    if s.op in ('seqrep', 'seq'):
        return [s] if s.op == 'seqrep' else [q[1] for q in s.a[0] if q[0] == 's']
    return []


def decisive(gone, kept, L):
    """A condition on numbers known before the loop, with its value, that alone tells a turn that leaves its element out from one that
    does not."""
    for e in map(dict, gone):
        for f in map(dict, kept):
            df = [a for a in e if a in f and f[a] != e[a]]
            if len(df) == 1 and independent(df[0], L):
                return df[0], e[df[0]]
    return None


def independent(a, L):
    return all(y.op not in ('lv', 'seqlv', 'unk', 'opq', 'get', 'slot', 'phi', 'elem') and (y.op != 'iv' or y.a[0] != L) for y in walk(a))


def gone(E, nodes):
    """Repeated parts that are left out for some inputs whatever the turn: [(item, reason)]."""
    out = []
    for n in nodes:
        for i in n.items if isinstance(n, Lst) else ():
            if i.iv is None or i.iv.op != 'iv':
                continue
            L = i.iv.a[0]
            x = decisive([f for f, ps in i.alts if not ps], [f for f, ps in i.alts if ps], L)
            if x is None and i.count is None and L in E.I.loopinfo:
                early = [e for e in E.G.exits.get(L, []) if e.data[1] is None and not E.G.only_panics(e)]
                if any(e.data[1] is not None for e in E.G.exits.get(L, [])):
                    x = decisive([e.facts for e in early], [b[0].facts for b in E.I.loopinfo[L]['backs']], L)
            if x is not None:
                out.append((i, '%s is %s' % (show(x[0])[:150], x[1])))
    return out
