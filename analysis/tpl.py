"""Normal form of token templates: the value returned as a TokenStream as a tree of tokens, groups, holes and
lists whose items are given per element (iterations over intermediate vectors are replaced by the iterations that
produced them)."""
from terms import *


class Unclear(Exception):
    pass


class Tok(object):
    __slots__ = ('text', 'kind')

    def __init__(self, text, kind):
        self.text = text
        self.kind = kind

    def __repr__(self):
        return self.text


class Grp(object):
    __slots__ = ('delim', 'parts')

    def __init__(self, d, parts):
        self.delim = d
        self.parts = parts

    def __repr__(self):
        o, c = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]'}.get(self.delim, '<>')
        return o + ' '.join(map(repr, self.parts)) + c


class Hole(object):
    __slots__ = ('term', 'ty')

    def __init__(self, t, ty):
        self.term = t
        self.ty = ty

    def __repr__(self):
        return '‹%s›' % show(self.term)


class Lst(object):
    """sep: separator text or None; trail: separator also after the last; items: list of Item"""
    __slots__ = ('sep', 'trail', 'items')

    def __init__(self, sep, trail, items):
        self.sep = sep
        self.trail = trail
        self.items = items

    def __repr__(self):
        return '«%s»%s%s' % (' ++ '.join(map(repr, self.items)), self.sep or '', '+' if self.trail else '')


class Item(object):
    """iv/count: None for a single element, else the index term and number of repetitions;
    alts: [(facts, parts)] alternatives of one repetition"""
    __slots__ = ('iv', 'count', 'alts')

    def __init__(self, iv, count, alts):
        self.iv = iv
        self.count = count
        self.alts = alts

    def __repr__(self):
        b = ' | '.join('%s' % ' '.join(map(repr, p)) for f, p in self.alts)
        return b if self.iv is None else 'for %s<%s {%s}' % (show(self.iv), show(self.count), b)


class Unk(object):
    __slots__ = ('term',)

    def __init__(self, t):
        self.term = t

    def __repr__(self):
        return '⟦%s⟧' % show(self.term)[:200]


def istok(x, text):
    return isinstance(x, Tok) and x.text == text


# ---- facts --------------------------------------------------------------------------------
def truth(atom, val):
    """True/False when the fact is decided, None otherwise."""
    if atom.op == 'bool':
        return atom.a[0] == val
    if atom.op == 'not':
        return truth(atom.a[0], not val) if isinstance(val, bool) else None
    if atom.op == 'discr':
        x = atom.a[0]
        if x.op == 'agg' and isinstance(val, frozenset):
            return x.a[1] in val
    return None


def simp_facts(facts):
    """Facts as a frozenset, None when contradictory."""
    out = set()
    by = {}
    for a, v in facts:
        while a.op == 'not' and isinstance(v, bool):
            a, v = a.a[0], not v
        t = truth(a, v)
        if t is True:
            continue
        if t is False:
            return None
        if a.op == 'discr' and a.a[0].op == 'get' and isinstance(v, frozenset):
            g = a.a[0]
            a, v = mk('has', *g.a), v == frozenset(['Some'])
        if a in by and by[a] != v:
            if isinstance(v, frozenset) and isinstance(by[a], frozenset):
                n = v & by[a]
                if not n:
                    return None
                out.discard((a, by[a]))
                v = n
            else:
                return None
        by[a] = v
        out.add((a, v))
    return frozenset(out)


def sub_facts(facts, m):
    return frozenset((subst(a, m), v) for a, v in facts)


# ---- raw parts ------------------------------------------------------------------------------
def sub_parts(ps, m):
    return tuple((k, subst(x, m)) for k, x in ps)


def IV(L):
    return mk('iv', L)


def structured(X):
    return X.op in ('seq', 'seqrep') or (X.op == 'rev' and X.a[0].op in ('seq', 'seqrep'))


def elems_at(parts, facts, iv):
    """Structured sequences indexed by exactly iv in the parts, outermost first."""
    found = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'elem' and x.a[1] is iv and structured(x.a[0]):
            if x not in found:
                found.append(x)
            return
        for c in children(x):
            go(c)
    for k, x in parts:
        go(x)
    for a, v in facts:
        go(a)
    return found


def uses(parts, facts, iv):
    return any(contains(x, iv) for _, x in parts) or any(contains(a, iv) for a, v in facts)


def loopfact(a, L):
    """A fact that only says that the index of loop L is in bounds."""
    if a.op not in ('gt0', 'eq0'):
        return False
    c, d = lin(a.a[0])
    return IV(L) in d


def drop_bounds(facts, L, keep=()):
    return frozenset((a, v) for a, v in facts if a in keep or not loopfact(a, L))


def decided(alts):
    """What tells alternatives of one iteration apart: known both ways."""
    t = {a for f, _ in alts for a, v in f if v is True}
    return t & {a for f, _ in alts for a, v in f if v is False}


class Norm(object):
    def __init__(self):
        self.memo = {}

    # a stream: list of nodes
    def stream(self, t):
        return self.parts((('s', t),))

    def parts(self, ps):
        out = []
        for k, x in ps:
            if k == 'e':
                out.extend(self.tok(x))
            else:
                out.extend(self.seq(x))
        return self.join(out)

    def join(self, ns):
        """Adjacent lists with the same separator, and single tokens between separators, stay as they are;
        adjacent lists are joined."""
        out = []
        for n in ns:
            if isinstance(n, Lst) and out and isinstance(out[-1], Lst) and not out[-1].trail:
                p = out[-1]
                if p.sep == n.sep or (n.sep is None and n.items and all(i.iv is None or i.count is INT(1) for i in n.items)) or n.sep is None and p.sep is not None:
                    out[-1] = Lst(p.sep, n.trail, p.items + n.items)
                    continue
            out.append(n)
        return out

    def tok(self, x):
        if x.op == 'tok':
            return [Tok(x.a[1], x.a[0])]
        if x.op == 'tgroup':
            return [Grp(x.a[0], self.seq(x.a[1]))]
        if x.op == 'hole':
            return [Hole(x.a[0], x.a[1])]
        if x.op in ('seq', 'seqrep'):
            return self.seq(x)
        if x.op == 'elem':
            al = self.resolve(x)
            if al is not None:
                return [Lst(None, False, [Item(None, None, [(f, self.tok(y)) for f, y in al])])]
        return [Unk(x)]

    def resolve(self, x):
        """Alternatives of a structured element at any index: [(facts, value)]."""
        X, i = x.a[0], x.a[1]
        if X.op == 'seqrep' and X.a[1] is EMPTY and length(X).op != 'len':
            L = X.a[0]
            m = {IV(L): i}
            out = []
            keep = decided(X.a[2])
            for f, ps in X.a[2]:
                if len(ps) != 1 or ps[0][0] != 'e':
                    return None
                if i is not IV(L) and any(y.op in ('lv', 'seqlv') and y.a[0] == L for x in [ps[0][1]] + [a for a, _ in f] for y in subterms(x)):
                    return None
                f2 = simp_facts(sub_facts(drop_bounds(f, L, keep), m))
                if f2 is not None:
                    out.append((f2, subst(ps[0][1], m)))
            return out
        return None

    def seq(self, s):
        if s.op == 'seq':
            return self.parts(s.a[0])
        if s.op == 'seqrep':
            return (self.parts((('s', s.a[1]),)) if s.a[1] is not EMPTY else []) + self.rep(s)
        return [Unk(s)]

    def rep(self, s):
        L, base, alts, trip = s.a[0], s.a[1], s.a[2], s.a[3]
        keep = decided(alts)
        alts = [(drop_bounds(f, L, keep), tuple(ps)) for f, ps in alts]
        sep, trail, alts = self.separator(alts)
        items = self.items(L, trip, alts)
        return [Lst(sep, trail, items)]

    def separator(self, alts):
        """Separator written before every element but the first, or after every element."""
        def lead(ps):
            return ps and ps[0][0] == 'e' and ps[0][1].op == 'tok' and ps[0][1].a[0] == 'p' and ps[0][1]
        plain = [a for a in alts if not lead(a[1])]
        led = [a for a in alts if lead(a[1])]
        if plain and led and len({lead(a[1]) for a in led}) == 1:
            bodies = {a[1] for a in plain}
            if all(a[1][1:] in bodies for a in led) and all(any(a[1][1:] == b for a in led) or True for b in bodies):
                return lead(led[0][1]).a[1], False, plain
        if alts and all(a[1] and a[1][-1][0] == 'e' and a[1][-1][1].op == 'tok' and a[1][-1][1].a[0] == 'p' for a in alts):
            t = {a[1][-1][1] for a in alts}
            if len(t) == 1 and all(len(a[1]) > 1 for a in alts):
                return t.pop().a[1], True, [(f, ps[:-1]) for f, ps in alts]
        return None, False, alts

    def items(self, L, count, alts):
        """Items of a repetition over L: iterations over structured sequences become the iterations that built
        them."""
        iv = IV(L)
        alts = [(simp_facts(f), ps) for f, ps in alts]
        alts = [(f, ps) for f, ps in alts if f is not None]
        for f, ps in alts:
            es = elems_at(ps, f, iv)
            es.sort(key=lambda e: 0 if (count is not None and length(e.a[0]) is count) else 1)
            for e in es:
                X = e.a[0]
                if count is not None and length(X) is count:
                    r = self.map(L, X, alts)
                    if r is not None:
                        return r
                al = self.resolve(e)
                if al is not None:
                    return self.items(L, count, self.branch(alts, e, al))
        done = []
        for f, ps in alts:
            f2, ps2 = f, ps
            done.append((f2, self.parts(ps2)))
        # flatten: a repetition whose only part is a list without separator of its own
        return [Item(iv, count, self.merge(done))]

    def merge(self, alts):
        """One alternative per element: alternation inside a single-part element is pulled up."""
        out = []
        for f, ns in alts:
            if len(ns) == 1 and isinstance(ns[0], Lst) and len(ns[0].items) == 1 and ns[0].items[0].iv is None and ns[0].sep is None:
                for f2, n2 in ns[0].items[0].alts:
                    g = simp_facts(f | f2)
                    if g is not None:
                        out.append((g, n2))
            else:
                out.append((f, ns))
        return out

    def branch(self, alts, e, al):
        out = []
        for f, ps in alts:
            if not (any(contains(x, e) for _, x in ps) or any(contains(a, e) for a, _ in f)):
                out.append((f, ps))
                continue
            for f2, y in al:
                m = {e: y}
                g = simp_facts(sub_facts(f, m) | f2)
                if g is not None:
                    out.append((g, sub_parts(ps, m)))
        return out

    def map(self, L, X, alts):
        """The repetition with body alts over the elements of X."""
        iv = IV(L)
        e = elem_raw(X, iv)
        out = []
        off = INT(0)
        for k, x in (parts(X) if X.op == 'seq' else (('s', X),)):
            if k == 'e':
                r = []
                for f, ps in alts:
                    m = {e: x}
                    f2, p2 = sub_facts(f, m), sub_parts(ps, m)
                    m2 = {iv: off}
                    f2 = simp_facts(sub_facts(f2, m2))
                    if f2 is not None:
                        r.append((f2, self.parts(sub_parts(p2, m2))))
                out.append(Item(None, None, self.merge(r)))
                off = add(off, INT(1))
                continue
            if x.op != 'seqrep':
                L2 = ('seg', L, x.id)
                m = {e: mk('elem', x, IV(L2))}
                m2 = {iv: add(IV(L2), off)}
                r = []
                for f, ps in alts:
                    f2 = simp_facts(sub_facts(sub_facts(f, m), m2))
                    if f2 is not None:
                        r.append((f2, sub_parts(sub_parts(ps, m), m2)))
                out.extend(self.items(L2, length(x), r))
                off = add(off, length(x))
                continue
            if x.a[1] is not EMPTY:
                return None
            L2 = x.a[0]
            simple = all(len(ps) == 1 and ps[0][0] == 'e' for _, ps in x.a[2])
            r = []
            keep = decided(x.a[2])
            for f0, ps0 in x.a[2]:
                f0 = drop_bounds(f0, L2, keep)
                if simple:
                    for f, ps in alts:
                        m = {e: ps0[0][1]}
                        f2, p2 = sub_facts(f, m), sub_parts(ps, m)
                        m2 = {iv: add(IV(L2), off)}
                        f2 = simp_facts(sub_facts(f2, m2) | f0)
                        if f2 is not None:
                            r.append((f2, sub_parts(p2, m2)))
                    continue
                # several or no elements per step: the position is not tracked
                body = []
                for k2, y in ps0:
                    if k2 == 'e':
                        for f, ps in alts:
                            m = {e: y}
                            f2, p2 = simp_facts(sub_facts(f, m)), sub_parts(ps, m)
                            if f2 is None:
                                continue
                            if uses(p2, (), iv) or len(alts) > 1:
                                return None
                            body.append(('nodes', self.parts(p2)))
                    else:
                        its = self.map_nested(L, e, y, alts)
                        if its is None:
                            return None
                        body.append(('items', its))
                r.append((f0, body))
            if simple:
                out.extend(self.items(L2, x.a[3], r))
                off = add(off, length(x))
            else:
                al = []
                for f, body in r:
                    f = simp_facts(f)
                    if f is None:
                        continue
                    ns = []
                    for k2, v in body:
                        ns.extend(v if k2 == 'nodes' else [Lst(None, False, v)])
                    al.append((f, ns))
                out.append(Item(IV(L2), x.a[3], al))
                off = mk('len', x)
        return out

    def map_nested(self, L, e, y, alts):
        m = {e: elem_raw(y, IV(L))}
        r = []
        for f, ps in alts:
            f2 = simp_facts(sub_facts(f, m))
            if f2 is not None:
                r.append((f2, sub_parts(ps, m)))
        return self.map(L, y, r)


def elem_raw(X, iv):
    return mk('elem', X, iv)


# ---- queries ----------------------------------------------------------------------------------
def walk_nodes(ns):
    for n in ns:
        yield n
        if isinstance(n, Grp):
            for x in walk_nodes(n.parts):
                yield x
        elif isinstance(n, Lst):
            for i in n.items:
                for f, ps in i.alts:
                    for x in walk_nodes(ps):
                        yield x


def streams(ns):
    """All token sequences in the tree (the top one and the content of every group and alternative)."""
    yield ns
    for n in ns:
        if isinstance(n, Grp):
            for x in streams(n.parts):
                yield x
        elif isinstance(n, Lst):
            for i in n.items:
                for f, ps in i.alts:
                    for x in streams(ps):
                        yield x


def pretty(ns, ind=0, out=None):
    top = out is None
    if top:
        out = []
    line = []

    def flush():
        if line:
            out.append('  ' * ind + ' '.join(line))
            del line[:]
    for n in ns:
        if isinstance(n, (Tok, Hole, Unk)):
            line.append(repr(n))
        elif isinstance(n, Grp):
            if len(repr(n)) < 70:
                line.append(repr(n))
                continue
            line.append({'Parenthesis': '(', 'Brace': '{', 'Bracket': '['}.get(n.delim, '<'))
            flush()
            pretty(n.parts, ind + 1, out)
            line.append({'Parenthesis': ')', 'Brace': '}', 'Bracket': ']'}.get(n.delim, '>'))
        else:
            flush()
            out.append('  ' * ind + 'LIST sep=%s%s' % (n.sep, ' trailing' if n.trail else ''))
            for i in n.items:
                out.append('  ' * ind + ' %s' % ('ONE' if i.iv is None else 'FOR %s < %s' % (show(i.iv), show(i.count))))
                for f, ps in i.alts:
                    out.append('  ' * ind + '  ALT %s' % ', '.join('%s=%s' % (show(a), show(v) if not isinstance(v, bool) else v) for a, v in f))
                    pretty(ps, ind + 2, out)
            out.append('  ' * ind + 'END')
    flush()
    return '\n'.join(out) if top else None
