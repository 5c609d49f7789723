"""Termination of the loops of an analysed root: a loop is bounded by a count that does not change in it, follows or shortens a finite
value, or every turn adds something new to a finite set, takes something off a work list that is fed with nothing but what is new, or
reads part of the grammar text."""
from base import *
import notation

# pieces syn reads at least one token for
NONEMPTY = ('Type', 'Expr', 'Lit', 'LitStr', 'LitInt', 'LitChar', 'LitBool', 'LitFloat', 'ExprPath', 'Path', 'Lifetime', 'Ident', 'Pat', 'Block', 'ExprBlock', 'Stmt',
            'Item', 'LifetimeParam', 'GenericParam', 'TypePath', 'TypeParam', 'Attribute', 'TokenTree', 'Group', 'Punct', 'Literal')


class Finite(object):
    def __init__(self, ctx, I, rep, name, empty=frozenset()):
        self.ctx, self.I, self.rep, self.name = ctx, I, rep, name
        self.G = Graph(I)
        self.empty = empty
        self.n = {}

    # -- general ----------------------------------------------------------------------------------
    def inner(self, L):
        """Loops that run inside turns of L."""
        return {n.data[0] for n in self.G.kind('hdr') if L in n.loops and n.data[0] != L}

    def within(self, L):
        return [n for n in self.G.nodes if L in n.loops]

    def varying(self, t, Ls, also=()):
        return any(x.op in ('lv', 'seqlv', 'iv') and x.a[0] in Ls or x in also for x in walk(t))

    def where(self, L):
        hs = self.G.hdrs.get(L)
        return '%s (%s)' % (where(hs[0]), self.name) if hs else self.name

    def run(self):
        for L in sorted(self.I.loopinfo, key=str):
            if self.G.hdrs.get(L):
                try:
                    self.loop(L)
                except Undecided as e:
                    self.rep.und('loop', self.where(L), str(e)[:200])

    def loop(self, L):
        li = self.I.loopinfo[L]
        w = self.where(L)
        back = [b for b in li['backs']]
        if not back:
            self.good('at most one turn', w)
            return
        r = [self.counted(L, li, b) for b in back]
        if all(x is True for x in r):
            self.good('counted', w)
            return
        if self.shrinking(L, li):
            self.good('follows a finite value', w)
            return
        self.progress(L, li, [x for x in r if isinstance(x, tuple)])

    def good(self, how, w):
        self.n[how] = self.n.get(how, 0) + 1
        self.rep.ok('loop', w, how)

    # -- counted loops ----------------------------------------------------------------------------------
    def counted(self, L, li, b):
        """True: the turn happens only while the number of turns is below a bound fixed before; (X,): below the length of X."""
        st = b[0]
        iv = mk('iv', L)
        syms = {s for k, i, s in li['leaves'].values() if k not in ('iv', 'dv')}
        X = None
        for f, v in st.facts.items():
            if f.op != 'gt0' or v not in (True, False):
                continue
            t = f.a[0] if v else sub(INT(1), f.a[0])
            k, d = lin(t)
            if d.get(iv, 0) >= 0:
                continue
            rest = [x for x in d if x is not iv]
            if not any(self.varying(x, {L}, syms) for x in rest):
                return True
            if len(rest) == 1 and rest[0].op == 'len' and d[rest[0]] > 0:
                X = (rest[0].a[0],)
        return X

    def shrinking(self, L, li):
        """A loop variable becomes a proper part of itself in every turn."""
        for (loc, p), (kind, init, sym) in li['leaves'].items():
            if loc == 'ver' or kind != 'lv':
                continue
            if all(self.part(self.I.get_leaf(st.mem.get(loc, sym), p), sym) for st, H, tgt, d in li['backs'] if loc in st.mem) and \
                    all(loc in st.mem for st, H, tgt, d in li['backs']):
                return True
        return False

    def part(self, t, sym):
        """t is a proper part of sym."""
        if t is None:
            return False
        if t.op == 'slice' and t.a[0] is sym:
            k, d = lin(sub(length(sym), length(t)))
            return not d and k > 0
        x, n = t, 0
        while x is not sym:
            if x.op == 'field':
                x = x.a[0]
                n += 1
            elif x.op == 'elem' and x.a[0].op == 'field':
                x = x.a[0]
            elif x.op in ('deref', 'ptr') and len(x.a) == 1:
                x = x.a[0]
            else:
                return False
        return n > 0

    # -- progress ----------------------------------------------------------------------------------------
    def base(self, L, t):
        """What a container is part of: carried through the turns of L, from before L, or made in the turn."""
        G = self.G
        seen = set()
        x = t
        while x not in seen:
            seen.add(x)
            x = G.unold(x)
            if x.op in ('lv', 'seqlv'):
                if x.a[0] == L or x not in G.sym:
                    return x
                x = G.sym[x]
            elif x.op in ('field', 'elem', 'setelem', 'setseq', 'slice'):
                x = x.a[0]
            elif x.op == 'seq' and len(x.a[0]) and x.a[0][0][0] == 's':
                x = x.a[0][0][1]
        return x

    def lasting(self, L, t):
        """The container exists before L and lasts through its turns."""
        b = self.base(L, t)
        if b.op in ('lv', 'seqlv'):
            return b.a[0] == L or b.a[0] not in self.inner(L)
        if b.op == 'new':
            return not any(L in n.loops for n in self.G.kind('new') if n.data[0] is b)
        return b.op in ('param', 'sym', 'seqrep', 'res', 'rec')

    def key(self, L, t):
        """Container up to the turn it is looked at."""
        return self.base(L, t)

    def shrunk(self, L):
        """Containers from which something is taken away in L."""
        out = set()
        for n in self.within(L):
            if n.kind in ('rem', 'clear', 'trunc'):
                d = n.data[0]
                if d.op == 'ptr':
                    d = ('at', d.a[0])
                    out.add(d)
                else:
                    out.add(self.base(L, d))
        return out

    def growth(self, L):
        """Decisions in L that something was added that was not there: id -> text."""
        G = self.G
        ns = self.within(L)
        ids = {n.id for n in ns}
        gone = self.shrunk(L)
        ins = [n for n in ns if n.kind == 'ins']
        out = {}
        ends = lambda m: m.kind == 'hdr' and m.data[0] == L or m.kind == 'ret'
        marks = [n for n in ns if n.kind == 'store' and n.data[1] and n.data[1][-1][0] == 'f']
        for n in ns:
            if n.kind != 'cond':
                continue
            a, v = n.data
            mp = k = None
            if a.op == 'has' and v is False:
                mp, k, vr = a.a
            elif a.op == 'discr' and a.a[0].op == 'get' and v == frozenset(['None']):
                mp, k, vr = a.a[0].a[:3]
            if mp is not None:
                if not self.lasting(L, mp) or self.base(L, mp) in gone:
                    continue
                same = [m for m in ins if m.data[0] is mp and m.data[1] is k]
                if not same:
                    continue
                before = [m for m in same if m.data[3] == vr]
                sid = {m.id for m in same}
                if before and not path(G.hdrs[L], lambda m: m is n, lambda m: m.id in sid or m.kind == 'exit' and m.data[0] == L):
                    out[n.id] = 'insertion'
                elif not path(n, ends, lambda m: m.id in sid):
                    out[n.id] = 'insertion'
                for m in same:
                    self.grown.setdefault(self.base(L, mp), []).append(m)
                continue
            # a mark that is set for the first time
            if a.op == 'field' and v is False and self.lasting(L, a):
                same = [m for m in marks if self.is_mark(L, m, a)]
                if same and not any(m.data[2] is not TRUE for m in marks if m.data[1][-1] == same[0].data[1][-1]):
                    sid = {m.id for m in same}
                    if not path(G.hdrs[L], lambda m: m is n, lambda m: m.id in sid or m.kind == 'exit' and m.data[0] == L) or not path(n, ends, lambda m: m.id in sid):
                        out[n.id] = 'mark'
                        self.grown.setdefault(self.base(L, a), [])
        # reading the grammar text
        for n in ns:
            if n.kind == 'parse' and self.consumes(n):
                out[n.id] = 'text'
        # more of a lasting set than before
        for n in ns:
            if n.kind == 'cond' and n.data[0].op in ('gt0', 'eq0'):
                k, d = lin(n.data[0].a[0])
                if k == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1] and all(x.op in ('len', 'size') for x in d):
                    bs = {self.base(L, x.a[0]) for x in d}
                    if len(bs) == 1 and self.lasting(L, list(bs)[0]) and not bs & gone and (n.data[0].op == 'gt0') == (n.data[1] is True) and \
                            any(x.a[0].op == 'setseq' or x.op == 'size' for x in d):
                        out[n.id] = 'size'
        return out

    def is_mark(self, L, m, a):
        """Store m sets the boolean field a."""
        p = m.data[1][-1]
        if a.a[1] != p[1] or str(a.a[3]) != str(p[4] if len(p) > 4 else p[-1]):
            return False
        idx = [q[1] for q in m.data[1] if q[0] == 'i']
        x, ix = a.a[0], []
        while x.op in ('field', 'elem', 'setelem'):
            if x.op == 'elem':
                ix.append(x.a[1])
            x = x.a[0]
        b = self.base(L, a)
        loc = [l for l, (k, i, s) in self.I.loopinfo[L]['leaves'].items() if s is b]
        return ix[::-1] == idx and bool(loc) and loc[0][0] == m.data[0]

    def consumes(self, n):
        b, ty, vr, kind = n.data
        while b.op == 'buf':
            b = b.a[1]
        if b.op != 'param':
            return False
        if kind == 'group':
            return True
        if ty in self.empty or kind != 'parse':
            return False
        if notation.token(ty):
            return True
        return ty.startswith('ast::') or ty.startswith(('syn::', 'proc_macro2::')) and ty.split('::')[-1] in NONEMPTY

    def at(self, n):
        """Place of the list a push or pop works on."""
        d = n.data[0]
        return (d.a[0], d.a[1]) if d.op == 'ptr' else None

    def only_after(self, L, goal, grow):
        """No way from the start of a turn of L to goal without growth."""
        return path(self.G.hdrs[L], goal, lambda m: m.id in grow or m.kind == 'exit' and m.data[0] == L or L not in m.loops) is None

    def derived(self, L, grow):
        """Lists that are empty at the start of a turn and non-empty only after growth: decisions that they are not empty."""
        G = self.G
        ns = self.within(L)
        leaves = self.I.loopinfo[L]['leaves']
        places = {l: s for q in self.inner(L) for l, (k, i, s) in self.I.loopinfo[q]['leaves'].items() if l[0] != 'ver'}
        changed = True
        while changed:
            changed = False
            for n in ns:
                if n.kind != 'cond' or n.id in grow or n.data[0].op not in ('gt0', 'eq0'):
                    continue
                k, d = lin(n.data[0].a[0])
                if len(d) != 1:
                    continue
                x, c = list(d.items())[0]
                pos = n.data[0].op == 'gt0' and n.data[1] is True and c == 1 and k <= 0 or n.data[0].op == 'eq0' and n.data[1] is False and k == 0
                if not pos:
                    continue
                y = x.a[0] if x.op == 'len' else x
                z = y
                while z.op in ('lv', 'seqlv') and z.a[0] in self.inner(L) and z in G.sym and G.sym[z] is not z:
                    loc = [l for l, s in places.items() if s is z] or [l for q in self.inner(L) for l, (kk, i, s) in self.I.loopinfo[q]['leaves'].items() if s is z]
                    z = G.sym[z]
                    if not loc:
                        break
                else:
                    if y.op not in ('lv', 'seqlv') or z is y:
                        continue
                    if x.op == 'len':
                        if not (z is EMPTY or z.op == 'seq' and not z.a[0]) or any(l[0] == loc[0][0] for l in leaves):
                            continue
                        feeds = [m for m in ns if m.kind in ('push', 'extend') and self.at(m) is not None and self.at(m)[0] == loc[0][0]]
                        if all(self.only_after(L, lambda q: q is m, grow) for m in feeds):
                            grow[n.id] = 'list fed by growth'
                            changed = True
        return grow

    def progress(self, L, li, lists):
        G, rep, w = self.G, self.rep, self.where(L)
        self.grown, self.lists, self._moving = {}, set(), {}
        grow = self.growth(L)
        self.derived(L, grow)
        out = lambda m: m.id in grow or m.kind == 'exit' and m.data[0] == L or L not in m.loops
        isend = lambda m: m.kind == 'hdr' and m.data[0] == L
        # a list that gets shorter
        feeds = {}
        takes = {}
        for n in self.within(L):
            if n.kind in ('push', 'extend') and self.at(n):
                feeds.setdefault(self.at(n), []).append(n)
            elif n.kind == 'pop' and self.at(n):
                takes.setdefault(self.at(n), []).append(n)
        carried = {l for l in li['leaves'] if l[0] != 'ver'}
        bad = None
        for pl in takes:
            if not any(l[0] == pl[0] for l in carried):
                continue
            tid = {n.id for n in takes[pl]}
            self.lists |= {x for l, (k, i, x) in li['leaves'].items() if l[0] == pl[0]}
            if self.turn(L, lambda m: out(m) or m.id in tid):
                continue
            fed = [f for f in feeds.get(pl, []) if not self.only_after(L, lambda m: m is f, grow)]
            fed = [f for f in fed if path(f, isend, out)]
            if not fed:
                self.universe(L, 'work list fed with what is new')
                return
            bad = (fed[0], pl)
        if bad:
            self.fed(L, bad[0], grow)
            return
        # a list whose length bounds the turns
        for X in lists:
            b = self.base(L, X[0])
            pl = [l for l, (k, i, s) in li['leaves'].items() if s is b]
            if pl and len(lists) == len(li['backs']):
                fed = [f for q in feeds for f in feeds[q] if q[0] == pl[0][0] and not self.only_after(L, lambda m: m is f, grow) and path(f, isend, out)]
                if not fed:
                    self.universe(L, 'list extended with what is new')
                    return
                self.fed(L, fed[0], grow)
                return
        p = self.turn(L, out)
        if p is None:
            if not grow:
                self.good('no full turn', w)
            else:
                self.universe(L, 'every turn adds something new' if set(grow.values()) != {'text'} else 'every turn reads text')
            return
        odd = self.odd(L, p)
        if odd is not None:
            # another way round without the doubtful decisions
            p2 = self.turn(L, lambda m: out(m) or self.doubtful(L, m))
            if p2 is not None and self.odd(L, p2) is None:
                p, odd = p2, None
        if odd is not None and odd.data[0].op in ('gt0', 'eq0'):
            p2 = self.via(L, p, odd, out)
            if p2 is not None:
                p, odd = p2, None
        if odd is None and self.missed(L, p):
            rep.und('loop', w, 'what is looked up and what is added are not compared')
        elif odd is None:
            rep.viol('loop', w, 'a turn is followed by another although nothing new was found: ' + show_path(p, 12))
        elif self.wraps(L, odd):
            rep.viol('loop', w, 'the position the loop counts with comes round to values it had before: goes on when %s' % show(odd.data[0])[:200])
        else:
            rep.und('loop', w, 'goes on when %s = %s' % (show(odd.data[0])[:120], odd.data[1] if not isinstance(odd.data[1], frozenset) else '/'.join(sorted(odd.data[1]))))

    def missed(self, L, p):
        """The way p looks something up in a lasting container in vain that gets another computed key."""
        gone = self.shrunk(L)
        for n in p:
            if n.kind != 'cond':
                continue
            a, v = n.data
            if a.op == 'has' and v is False:
                mp, k = a.a[:2]
            elif a.op == 'discr' and a.a[0].op == 'get' and v == frozenset(['None']):
                mp, k = a.a[0].a[:2]
            else:
                continue
            if not self.lasting(L, mp) or self.base(L, mp) in gone or not any(x.op == 'new' for x in walk(k)):
                continue
            if any(m.kind == 'ins' and m.data[0] is mp and m.data[1] is not k and any(x.op == 'new' for x in walk(m.data[1])) for m in p):
                return True
        return False

    def wraps(self, L, n):
        """Decision n compares a loop variable with something fixed, and every turn makes it a remainder (or masked, cut) of itself."""
        if n.data[0].op not in ('gt0', 'eq0'):
            return False
        d0 = lin(n.data[0].a[0])[1]
        xs = [x for x in d0 if x.op == 'lv' and x.a[0] == L]
        if len(xs) != 1 or any(self.varying(x, {L}) for x in d0 if x is not xs[0] and not (x.op == 'len' and x.a[0].op == 'field')):
            return False
        s = xs[0]
        li = self.I.loopinfo[L]
        for (loc, p), (kind, init, sym) in li['leaves'].items():
            if sym is s and loc != 'ver':
                vs = [self.I.get_leaf(st.mem[loc], p) if loc in st.mem else sym for st, H, tgt, d in li['backs']]
                cut = lambda v: v.op == 'arith' and v.a[0] in ('Rem', 'BitAnd') and lin(v.a[1])[1] == {s: 1} and lin(v.a[1])[0] > 0 and not any(self.varying(x, {L}) for x in v.a[2:])
                up = n.data[0].op == 'gt0' and (d0[s] < 0) == (n.data[1] is True)
                return up and bool(vs) and all(v is not None and (v is s or cut(v)) for v in vs) and any(v is not s for v in vs)
        return False

    def filled(self, L, n):
        """The place of the list that decision n finds not empty, when it is empty at the start of the turn."""
        G = self.G
        k, d = lin(n.data[0].a[0])
        if len(d) != 1:
            return None
        x, c = list(d.items())[0]
        if x.op != 'len' or not (n.data[0].op == 'gt0' and n.data[1] is True and c == 1 and k <= 0 or n.data[0].op == 'eq0' and n.data[1] is False and k == 0):
            return None
        z, loc = x.a[0], None
        while z.op in ('lv', 'seqlv') and z.a[0] in self.inner(L) and z in G.sym and G.sym[z] is not z:
            here = [l for q in self.inner(L) for l, (kk, i, s) in self.I.loopinfo[q]['leaves'].items() if s is z and l[0] != 'ver']
            if not here:
                return None
            loc, z = here[0], G.sym[z]
        return loc if loc is not None and (z is EMPTY or z.op == 'seq' and not z.a[0]) else None

    def searched(self, L):
        """A loop in L stops early in some turns: what it finds may say whether something is new in a way not followed here."""
        fed = {self.at(m)[0] for m in self.within(L) if m.kind in ('push', 'extend') and self.at(m)}
        place = {s: l[0] for q in self.inner(L) | {L} for l, (k, i, s) in self.I.loopinfo[q]['leaves'].items()}
        for q in self.inner(L):
            n = {m.data[1] for m in self.G.kind('exit') if m.data[0] == q}
            if None in n and any(x.op == 'len' and (place.get(x.a[0]) in fed or place.get(self.base(L, x.a[0])) in fed) for t in n if t is not None for x in lin(t)[1]):
                return True
        return False

    def via(self, L, p, odd, out):
        """The same turn, filling the list first."""
        loc = self.filled(L, odd)
        if loc is None or self.searched(L):
            return None
        i = p.index(odd)
        for m in self.within(L):
            if m.kind in ('push', 'extend') and self.at(m) is not None and self.at(m)[0] == loc[0]:
                p1 = path(self.G.hdrs[L], lambda q: q is m, out)
                p2 = path(m, lambda q: q is odd, out) if p1 else None
                if p2:
                    r = p1 + p2[1:] + p[i + 1:]
                    if self.odd(L, r, odd) is None:
                        return r
        return None

    def turn(self, L, avoid):
        """A full turn that goes through nothing of avoid and can be followed by another."""
        G = self.G
        hs = G.hdrs[L]
        nxt = {}
        for h in hs:
            nxt[h.id] = [(g, path(h, lambda m: m is g, lambda m: avoid(m) or m.kind == 'hdr' and m.data[0] == L)) for g in hs]
        # a cycle among the headers
        for h in hs:
            seen, st = {}, [(h, [])]
            while st:
                x, ps = st.pop()
                for g, p in nxt[x.id]:
                    if p is None:
                        continue
                    if g is h:
                        return (ps + p[1:]) if ps else p
                    if g.id not in seen:
                        seen[g.id] = True
                        st.append((g, (ps or [h]) + p[1:]))
        return None

    def moving(self, L):
        """Loop variables that get another value in some turn, besides the containers that only grow."""
        if L not in self._moving:
            out = set()
            for leaf, (kind, init, sym) in self.I.loopinfo[L]['leaves'].items():
                if leaf[0] == 'ver' or sym in self.grown or sym in self.lists:
                    continue
                if kind in ('iv', 'dv') or any(leaf[0] in st.mem and self.I.get_leaf(st.mem[leaf[0]], leaf[1]) is not sym for st, H, tgt, d in self.I.loopinfo[L]['backs']):
                    out.add(sym)
            self._moving[L] = out
        return self._moving[L]

    def doubtful(self, L, n):
        """A decision that depends on what happened in this turn or earlier ones in a way that is not followed."""
        if n.kind != 'cond':
            return False
        a = n.data[0]
        mv = self.moving(L)
        if any(x in mv or x.op == 'iv' and x.a[0] == L for x in subterms(a)):
            return True
        if a.op in ('has', 'discr', 'peek', 'parses', 'fits'):
            return False
        Ls = self.inner(L) | {L}
        if a.op in ('gt0', 'eq0'):
            k, d = lin(a.a[0])
            if len(d) == 1 and all(x.op == 'len' and x.a[0] in self.lists for x in d):
                return False
            # what a set that only grows has or lacks stays as it is while nothing is added
            if len(d) == 1 and all(x.op == 'len' and x.a[0].op == 'setseq' and self.base(L, x.a[0]) in self.grown for x in d):
                return False
            if any(x.op == 'iv' and x.a[0] in Ls for x in d):
                return any(x.op == 'iv' and x.a[0] == L for x in d) and any(self.varying(x, {L}) for x in d if x.op != 'iv')
            return any(self.varying(x, Ls) for x in d if not (x.op == 'field' or x.op == 'len' and x.a[0].op == 'field'))
        if a.op in ('lv', 'seqlv'):
            return a.a[0] in Ls
        if a.op == 'field':
            return False
        return self.varying(a, Ls)

    def ending(self, n):
        """The decision that ends a loop that has no other way out."""
        q = [m.data[0] for m in n.succ if m.kind == 'exit']
        return bool(q) and len(n.succ) == 1 and all(m.pred == [n] or all(x.kind == 'cond' and x.data[0] is n.data[0] and x.data[1] == n.data[1] for x in m.pred)
                                                    for m in self.G.kind('exit') if m.data[0] == q[0])

    def odd(self, L, p, but=None):
        seen = {}
        Ls = self.inner(L) | {L}
        for n in p:
            if n.kind != 'cond' or n is but:
                continue
            if but is not None and self.ending(n):
                continue
            if self.doubtful(L, n):
                return n
            a, v = n.data
            if self.varying(a, Ls - {L}):
                continue
            o = seen.get(a)
            if o is not None and (o != v and not (isinstance(o, frozenset) and isinstance(v, frozenset) and o & v)):
                return n
            seen[a] = v
            # what can be read cannot fail to be
            if a.op == 'parses' and v is False and seen.get(mk('peek', *a.a)) is True or a.op == 'peek' and v is True and seen.get(mk('parses', *a.a)) is False:
                return n
        return None

    def fed(self, L, f, grow):
        """A work list is fed although nothing new was found."""
        G, rep = self.G, self.rep
        w = self.where(L)
        v = f.data[1]
        avoid = lambda m: m.id in grow or m.kind == 'exit' and m.data[0] == L or L not in m.loops
        p = path(G.hdrs[L], lambda m: m is f, avoid)
        known = [n for n in self.within(L) if n.kind == 'ins' and n.data[1] is v and self.lasting(L, n.data[0])]
        if known and p is not None:
            odd = [n for n in p if n.kind == 'cond' and self.doubtful(L, n)]
            if not odd:
                rep.viol('work list', where(f), 'what is in the set already is put on the work list again: ' + show_path(p, 10))
                return
        rep.und('work list', where(f), 'fed with %s%s' % (show(v)[:100], ' when %s' % show(odd[0].data[0])[:200] if known and p is not None else ''))

    # -- what is added comes from a finite supply ------------------------------------------------------------
    def universe(self, L, how):
        rep, w = self.rep, self.where(L)
        for b, ns in self.grown.items():
            for n in ns:
                why = self.unbounded(L, n.data[1], n, set())
                if why:
                    rep.und('finite supply', where(n), why)
                    return
        self.good(how, w)

    def unbounded(self, L, t, n, seen):
        """None when the term ranges over a finite set fixed by the grammar (elements of what is there, positions, constants)."""
        if (t, L) in seen:
            return None
        seen.add((t, L))
        if t.op in ('int', 'str', 'bool', 'unit') or t is NONE:
            return None
        if t.op == 'agg':
            for x in t.a[2]:
                r = self.unbounded(L, x, n, seen)
                if r:
                    return r
            return None
        if t.op == 'iv':
            if t.a[0] == L:
                return 'the number of the turn is part of what is added'
            return None
        if t.op == 'new':
            # a set built in the turn: what is put into it
            for m in self.within(L):
                if m.kind == 'ins' and self.base(L, m.data[0]) is t:
                    for x in m.data[1:3]:
                        if isinstance(x, T):
                            r = self.unbounded(L, x, m, seen)
                            if r:
                                return r
            return None
        if t.op in ('field', 'elem', 'setseq', 'get', 'lv', 'seqlv', 'sym', 'param', 'parsed', 'seqrep', 'slice', 'disp', 'strof', 'ident', 'len', 'old', 'str', 'name'):
            return None
        if t.op == 'seq':
            for p in t.a[0]:
                if len(p) > 1 and isinstance(p[1], T):
                    r = self.unbounded(L, p[1], n, seen)
                    if r:
                        return r
            return None
        k, d = lin(t)
        if d and not (len(d) == 1 and t in d):
            up = [x for x, c in d.items() if x.op != 'iv' or x.a[0] == L]
            for x in up:
                if x.op == 'len':
                    continue
                # bounded by what was checked on the way
                if any(f.op == 'gt0' and self.caps(f.a[0] if v else sub(INT(1), f.a[0]), x) for f, v in n.facts.items() if v in (True, False) and f.op == 'gt0'):
                    continue
                return 'grows from %s' % show(x)[:120]
            return None
        return 'made by %s' % show(t)[:120]

    def caps(self, t, x):
        """t > 0 bounds x from above."""
        k, d = lin(t)
        return d.get(x, 0) < 0


# ---- recursion --------------------------------------------------------------------------------------------
def smaller(x, y):
    """x is a proper part of y."""
    n = 0
    while x is not y:
        if x.op == 'field':
            x = x.a[0]
            n += 1
        elif x.op in ('elem', 'slice', 'setseq'):
            x = x.a[0]
        elif x.op in ('deref',):
            x = x.a[0]
        else:
            return False
    return n > 0


def recursion(I, G, rep, name, seen):
    """Every recursive call is on a proper part of an argument."""
    for n in G.kind('rec'):
        key, args = n.data[0], n.data[1]
        outer = I.recargs.get(n.id)
        w = '%s (%s)' % (where(n), key)
        if outer is None:
            rep.und('recursion', w, 'arguments of the outer call not found')
            continue
        if any(smaller(a, b) for a, b in zip(args, outer)):
            if (w, 'ok') not in seen:
                seen.add((w, 'ok'))
                rep.ok('recursion', w, 'on a part of the argument')
            continue
        if all(a is b for a, b in zip(args, outer)):
            rep.viol('recursion', w, 'the function calls itself with the arguments it was given')
        else:
            rep.und('recursion', w, 'called again with %s' % ', '.join(show(a)[:60] for a in args))
