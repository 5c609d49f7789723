"""Every failure of the expansion (panic, lookup out of range, missing key, underflow) reachable from the macro entry is classified by the
conditions under which it is reached, on the inlined event graph read as in a debug build: a name declared twice, undeclared or missing, an
unimplemented feature, a number beyond 16 bits, two different actions for one table cell - or a condition no grammar meets.  Positions used to
look into lists are compared with the length of the list they are used on."""
import base, notation
from base import *
from gram import *
import prims

LIMIT = 16
DECLARED = ('name', 'from')
LISTS = {'productions', 'symbols', 'conversions', 'non_terminals', 'items', 'terminals', 'fields', 'alternatives'}
REPORTS = {'Repeat', 'Fallible'}
BITS = {'u8': 8, 'i8': 7, 'u16': 16, 'i16': 15, 'u32': 32, 'i32': 31, 'u64': 64, 'usize': 64, 'i64': 63}


def root_tree(t):
    """t is part of the grammar as parsed."""
    return any(x.op == 'parsed' for x in walk(t))


def is_decl_name(t):
    """The name or text of a declaration, as written."""
    while t.op in ('disp', 'strof', 'clone') or t.op == 'cat' and len(t.a) == 1 and not isinstance(t.a[0], tuple):
        t = t.a[0]
    if t.op == 'cat':
        ps = [p for p in t.a[0] if not (isinstance(p, str) and p == '')]
        return len(ps) == 1 and not isinstance(ps[0], str) and is_decl_name(ps[0])
    return t.op == 'field' and t.a[3] in DECLARED


def decl_kind(t):
    return next(x.a[1:4] for x in walk(t) if x.op == 'field' and x.a[3] in DECLARED)


def is_sym_name(t):
    while t.op in ('disp', 'strof', 'clone'):
        t = t.a[0]
    return t.op == 'field' and t.a[2] in ('NonTerminal', 'Terminal') or \
        t.op == 'elem' and t.a[0].op == 'cap' or (t.op in ('param', 'old', 'arg') and False)


WIDTHS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64}


class Refuse(object):
    def __init__(self, ctx, rep):
        self.ctx, self.rep = ctx, rep
        self.I = I = ctx.run('parser', bounds=True)
        self.G = Graph(I)
        self.entry = [n for n in self.G.nodes if n.kind == 'entry']
        self.maps = {}
        self.later = {}
        self.home = {}
        for n in self.G.kind('hdr'):
            for x, k, init in n.data[2] if len(n.data) > 2 else ():
                if isinstance(x, T):
                    self.home.setdefault(x, []).append(n)
        for n in self.G.nodes:
            if n.kind == 'ins' and isinstance(n.data[0], T) and n.data[0].op != 'ptr':
                self.maps.setdefault(self.G.root(n.data[0]), []).append(n)
        self.entries()

    # ---- failures ----------------------------------------------------------------------------------
    def decls(self, m):
        """The map or set holds names of declarations only."""
        ns = self.maps.get(self.G.root(m))
        return bool(ns) and all(is_decl_name(n.data[1]) for n in ns)

    def recording(self, n, c):
        """The names are recorded in the loop the condition is in."""
        ls = {x.a[0] for x in walk(c.a[1]) if x.op == 'iv'} or set(n.loops)
        return any(set(x.loops) & set(n.loops) & ls for x in self.maps.get(self.G.root(c.a[0]), ()))

    def goes_on(self, n, m):
        """Names are still being put into the map where n is."""
        return any(set(x.loops) & set(n.loops) for x in self.maps.get(self.G.root(m), ())) if n.loops else False

    def all_declared(self, m, key, at):
        """Every declaration's name is put into the map in a loop that is over."""
        k = key
        while k.op in ('disp', 'strof', 'clone'):
            k = k.a[0]
        ivs = {x for x in walk(k) if x.op == 'iv'}
        if k.op != 'field':
            return False
        for n in self.maps.get(self.G.root(m), ()):
            q = n.data[1]
            while q.op in ('disp', 'strof', 'clone'):
                q = q.a[0]
            qs = {x for x in walk(q) if x.op == 'iv'}
            if len(qs) != 1:
                return False
            qv = next(iter(qs))
            if q.op != 'field' or not any(subst(k, {x: qv}) is q for x in ivs):
                # elements of one list
                return False
            L = qv.a[0]
            x0 = next(x for x in ivs if subst(k, {x: qv}) is q)
            here = {subst(f, {x0: qv}): v for f, v in at.facts.items() if x0 in set(walk(f))}

            def other(x):
                """Holds for another declaration only."""
                if x.kind != 'cond':
                    return False
                v = here.get(x.data[0])
                return v is not None and (not v & x.data[1] if isinstance(v, frozenset) else v is not x.data[1])
            ids = {x.id for x in self.maps[self.G.root(m)]}
            if any(path(h, lambda x: x.kind in ('hdr',) and x.data[0] == L, lambda x: x.id in ids or x.kind == 'exit' and x.data[0] == L or other(x))
                   for h in self.G.hdrs.get(L, [])):
                return False
            return True
        return False

    def excuse(self, n):
        """Why a failure after this condition is one of the stated reasons (or impossible); None when it is not."""
        if n.kind == 'exit':
            return None
        if n.kind != 'cond':
            return None
        c, v = n.data[0], n.data[1]
        if c.op == 'fits' and v is False:
            return 'a number above the limit' if BITS.get(str(c.a[1]).split('::')[-1], 64) >= LIMIT else None
        if c.op == 'parses' and v is False:
            return 'syntax'
        if c.op == 'has':
            if self.decls(c.a[0]):
                if v is True:
                    # while names are being recorded
                    return 'declared twice' if is_decl_name(c.a[1]) and self.recording(n, c) else None
                if is_sym_name(c.a[1]) and not self.goes_on(n, c.a[0]) or is_decl_name(c.a[1]) and not self.recording(n, c) and self.all_declared(c.a[0], c.a[1], n):
                    return 'not declared'
            return None
        if c.op == 'discr':
            if isinstance(v, frozenset) and v <= REPORTS:
                return 'not implemented'
            b = c.a[0]
            if v == frozenset(['NamedSymbol']) and b.op == 'field' and b.a[2] == 'NamedSymbol':
                return 'named twice'
            if isinstance(v, frozenset) and v == frozenset(['None']) and b.op == 'get' and self.decls(b.a[0]) and is_sym_name(b.a[1]) and not self.goes_on(n, b.a[0]):
                return 'not declared'
            if isinstance(v, frozenset) and v == frozenset(['Err']) and b.op in ('parsed', 'perr'):
                return 'syntax'
            return None
        if c.op in ('eqv', 'eq') and v is True and all(isinstance(x, T) and is_decl_name(x) for x in c.a[:2]):
            return 'declared twice'
        return None

    def impossible(self, n):
        """No grammar meets this condition."""
        if n.kind != 'cond':
            return False
        c, v = n.data[0], n.data[1]
        if c.op == 'eq0' and v is False:
            return self.always0(c.a[0], n)
        if c.op == 'gt0' and v is False:
            # a position is beyond the end
            k, ts = lin(c.a[0])
            ls = [x for x in ts if x.op == 'len' and ts[x] == 1]
            if len(ls) == 1 and len(ts) > 1:
                i = sub(ls[0], c.a[0])
                return i.op != 'iv' and self.inside(n, ls[0], i)
        return False

    def always0(self, t, n):
        alts = [t]
        for _ in range(6):
            nxt, changed = [], False
            for x in alts:
                k, ts = lin(x)
                y = next((y for y in ts if y.op == 'len' and self.lens(y.a[0]) is not None), None)
                if y is None:
                    nxt.append(x)
                    continue
                changed = True
                for l in self.lens(y.a[0]):
                    nxt.append(add(sub(x, mul(y, ts[y])), mul(l, ts[y])))
            alts = nxt
            if not changed:
                break
        if all(x.op == 'int' and x.a[0] == 0 for x in alts):
            return True
        # entry non-terminals have one production
        k, ts = lin(t)
        if len(ts) == 1 and -k == list(ts.values())[0]:
            y = list(ts)[0]
            if y.op == 'len' and self.one_production and self.of_entry(y.a[0], n):
                return True
        return False

    def lens(self, s):
        """Possible lengths of an element of a list of lists."""
        if s.op == 'elem' and s.a[0].op == 'seqrep':
            out = []
            for alt in s.a[0].a[2]:
                for p in alt[1]:
                    if p[0] != 'e':
                        return None
                    out.append(length(p[1]))
            return out
        return None

    def of_entry(self, s, n):
        """s = productions of a non-terminal known to be an entry point where n is."""
        b = fld(s, 'productions', 'NonTerminal')
        src = b
        if s.op == 'seqrep':
            tr = s.a[3]
            if tr.op == 'len':
                src = fld(tr.a[0], 'productions', 'NonTerminal')
        if src is None:
            # whatever copy of the productions it is
            y = length(s)
            src = fld(y.a[0], 'productions', 'NonTerminal') if y.op == 'len' else None
        pub = lambda m: m.kind == 'cond' and fld(m.data[0], 'public', 'NonTerminal') is not None and m.data[1] is True
        ls = n.loops
        hs = self.G.hdrs.get(ls[-1], []) if ls else self.entry
        return path(hs, lambda m: m is n, pub) is None

    def entries(self):
        """Every non-terminal made an entry point gets exactly one production."""
        G = self.G
        pushes, prods = [], []
        for n in G.kind('push'):
            v, q = n.data[1], n.data[0]
            # copies of a finished grammar have the same shape
            if q.op == 'ptr' and not any(s[0] == 'f' and s[4] == 'non_terminals' for s in q.a[1]):
                continue
            if v.op == 'agg' and v.a[0].split('::')[-1] == 'NonTerminal' and len(v.a[2]) == 4:
                pushes.append(n)
            elif v.op == 'agg' and v.a[0].split('::')[-1] == 'Production':
                prods.append(n)
        self.one_production = None
        ents = [n for n in pushes if n.data[1].a[2][3] is TRUE]
        if not ents or any(n.data[1].a[2][3] not in (TRUE, FALSE) for n in pushes):
            return
        ids = {n.id for n in ents}
        own, named, listed = [], [], []
        for n in prods:
            q = n.data[0]
            ix = None
            if q.op == 'ptr':
                ix = next((s[1] for s in q.a[1] if s[0] == 'i'), None)
            if ix is None:
                return
            if any(x.op == 'get' and self.decls(x.a[0]) for x in walk(ix)):
                named.append(n)
            elif ix.op == 'elem' and ix.a[0].op == 'seqrep' and ix.a[0].a[1] is EMPTY:
                # a list of the positions
                vs = [x for _, ps in ix.a[0].a[2] for k, x in ps if k == 'e']
                if len(vs) != sum(len(ps) for _, ps in ix.a[0].a[2]):
                    return
                listed += vs
            else:
                own.append((n, ix))
        for e in ents:
            at = length(e.data[2]) if len(e.data) > 2 else None
            mine = {n.id for n, ix in own if ix is at}
            end = G.iteration_end(e)
            if not mine or path(e, end, lambda m: m.id in mine) or any(path(n, lambda m: m.id in mine, end) for n in G.nodes if n.id in mine):
                self.one_production = False
                return
        if any(ix not in [length(e.data[2]) for e in ents if len(e.data) > 2] for n, ix in own):
            return
        # names stand for ordinary non-terminals
        ord_at = [length(p.data[2]) for p in pushes if p.data[1].a[2][3] is FALSE and len(p.data) > 2]
        if any(v not in ord_at for v in listed):
            return
        for m, ns in self.maps.items():
            if all(is_decl_name(n.data[1]) for n in ns) and any(n.data[2] in ord_at for n in ns):
                if not all(n.data[2] in ord_at for n in ns):
                    return
        self.one_production = True

    # ---- table cells --------------------------------------------------------------------------------
    def cell(self, n):
        """The condition says that something was entered in this place before: (map, key)."""
        if n.kind != 'cond':
            return None
        c, v = n.data[0], n.data[1]
        if c.op == 'has' and v is True and not self.decls(c.a[0]):
            return c.a[0], c.a[1]
        if c.op == 'discr' and isinstance(v, frozenset) and 'None' not in v:
            for x in walk(c.a[0]):
                if x.op == 'get' and not self.decls(x.a[0]):
                    return x.a[0], x.a[1]
        return None

    def differs(self, n):
        if n.kind != 'cond' or n.data[1] is not False:
            return False
        c = n.data[0]
        if c.op in ('eqv', 'eq', 'eq0'):
            return any(x.op == 'get' for x in walk(c))
        return False

    def entered(self, m, key, n):
        """Values entered under the key in the turn of n."""
        out = []
        for x in self.maps.get(self.G.root(m), ()):
            if x.data[1] is key and len(x.data) > 2 and isinstance(x.data[2], T) and (path(x, lambda y: y is n) or path(n, lambda y: y is x)):
                out.append(x.data[2])
        return out

    def failures(self):
        G, rep = self.G, self.rep
        ps = G.kind('panic')
        rep.note('failures reachable', len(ps))
        for n in ps:
            self.failure(n)

    def failure(self, n):
        G, rep = self.G, self.rep
        w = where(n)
        why = set()
        hit = {}

        def ok(m):
            if m.id not in hit:
                x = self.excuse(m) or ('no grammar' if self.impossible(m) else None)
                hit[m.id] = x
            return hit[m.id] is not None
        p = path(self.entry, lambda m: m is n, ok)
        if p is None:
            # the reasons next to it
            st, seen = [n], set()
            while st:
                for q in st.pop().pred:
                    if q.id in seen:
                        continue
                    seen.add(q.id)
                    if ok(q):
                        why.add(hit[q.id])
                    elif q.kind != 'hdr':
                        st.append(q)
            rep.ok('failure', w, 'only for: ' + (', '.join(sorted(why)) or '-'))
            return
        if self.items(n):
            return
        last = next((m for m in reversed(p) if m.kind == 'cond'), None)
        if last is not None and last.kind == 'cond' and last.data[0].op == 'fits':
            self.judge(n, p)
            return
        # an occupied cell
        cells = [(m, self.cell(m)) for m in p if self.cell(m) is not None]
        q = path(self.entry, lambda m: m is n, lambda m: ok(m) or self.cell(m) is not None)
        if q is None:
            p2 = path(self.entry, lambda m: m is n, lambda m: ok(m) or self.differs(m))
            if p2 is None:
                rep.ok('failure', w, 'only for different entries in one place')
                return
            m, (mp, key) = cells[-1]
            vs = self.entered(mp, key, n)
            if key.op in ('strfn', 'unraw') and any(is_part(y) for y in walk(key)):
                rep.viol('failure', w, 'different names count as the same: %s' % show(key)[:150])
                return
            again = self.again(mp, key)
            if again is not None:
                rep.viol('failure', w, 'an entry is made again in every turn of the loop at %s, and taken for a conflict' % again)
                return
            if vs and all(v.op == 'agg' and v.a[1] in ('Reduce', 'Accept') for v in vs):
                rep.ok('failure', w, 'only for different actions in one cell')
            elif self.kinds(p2, vs):
                rep.ok('failure', w, 'only for different kinds of action in one cell')
            elif vs and all(v.op == 'agg' and v.a[1] == 'Shift' for v in vs):
                rep.viol('failure', w, 'two items that expect the same token are taken for a conflict: ' + show_path(p2))
            else:
                rep.und('failure', w, 'an entry meets %s' % show(m.data[0])[:120])
            return
        self.judge(n, q)

    def again(self, mp, key):
        """The same entry is made again in another turn of a loop that the place does not depend on."""
        G = self.G
        for x in self.maps.get(G.root(mp), ()):
            if x.data[1] is not key or len(x.data) < 3 or not isinstance(x.data[2], T):
                continue
            used = {y.a[0] for z in (x.data[0], x.data[1], x.data[2]) for y in walk(z) if y.op == 'iv'}
            for L in x.loops:
                if L not in used and used and not self.varies(x, L):
                    # every turn of L makes it
                    hs = G.hdrs.get(L, [])
                    if hs:
                        return where(hs[0])
        return None

    def varies(self, x, L):
        """Something the entry depends on changes in the loop, or a condition on the turn selects it."""
        G = self.G
        mine = set()
        for h in G.hdrs.get(L, []):
            for y, k, init in h.data[2] if len(h.data) > 2 else ():
                if isinstance(y, T):
                    mine.add(y)
        ivL = lambda t: any(y.op == 'iv' and y.a[0] == L or y in mine for y in walk(t))
        if any(ivL(z) for z in x.data[:3] if isinstance(z, T)):
            return True
        for m in G.nodes:
            if m.kind == 'cond' and L in m.loops and ivL(m.data[0]) and not self.turn(m, L):
                # does it decide whether the entry is made?
                if path(G.hdrs.get(L, []), lambda y: y is x, lambda y: y is m or y.kind == 'cond' and y.data[0] is m.data[0] and y.data[1] == m.data[1]) is None:
                    return True
        return False

    def turn(self, m, L):
        """The condition only asks for another turn."""
        return m.data[0].op == 'gt0' and any(y.op == 'iv' and y.a[0] == L for y in lin(m.data[0].a[0])[1])

    def kinds(self, p, vs):
        """On the path the old and the new action are of different kinds."""
        ks = None
        for m in p:
            d = discr_cond(m)
            if d and any(x.op == 'get' for x in walk(d[0])) and isinstance(d[1], frozenset) and 'Some' not in d[1] and 'None' not in d[1]:
                ks = d[1]
        return bool(ks and vs) and all(v.op == 'agg' and v.a[1] not in ks for v in vs)

    def items(self, n):
        """Failures about the number of declarations of a kind."""
        G, rep = self.G, self.rep
        isitem = lambda m, k: m.kind == 'cond' and m.data[0].op == 'discr' and m.data[1] == frozenset([k]) and \
            m.data[0].a[0].op == 'elem' and m.data[0].a[0].a[0].op == 'field' and m.data[0].a[0].a[0].a[3] == 'items'
        for k, what in (('TokenEnum', '`enum Token`'), ('TypeDef', '`type State`')):
            last = [m for m in G.nodes if isitem(m, k)]
            ids = {m.id for m in last}
            if not last:
                continue
            if path(self.entry, lambda m: m is n, lambda m: m.id in ids) is None:
                # needs at least one: must need two
                firsts = [m for m in last if path(self.entry, lambda x: x is m, lambda x: x.id in ids and x is not m)]
                p = path(firsts, lambda m: m is n, lambda m: m.id in ids)
                if p is None:
                    rep.ok('failure', where(n), 'only when there are two declarations %s' % what)
                    return True
                if all(m.kind != 'cond' or isitem(m, k) or not self.open(m) for m in p[1:]):
                    rep.viol('failure', where(n), 'well-formed grammars are refused, with one %s: %s' % (what, show_path(p)))
                    return True
            if k == 'TokenEnum':
                for L in {m.loops[-1] for m in last if m.loops}:
                    mine = [m for m in last if m.loops and m.loops[-1] == L]
                    if path(mine, lambda m: m is n) is None and path(self.entry, lambda m: m is n, lambda m: m.kind == 'exit' and m.data[0] == L and m.data[1] is not None) is None:
                        rep.ok('failure', where(n), 'only when %s is missing' % what)
                        return True
        return False

    def open(self, m):
        """The condition is not about the grammar alone."""
        return not self.plain(m)

    def plain(self, m):
        """The condition is one that well-formed grammars meet."""
        c, v = m.data[0], m.data[1]
        if c.op in ('gt0', 'eq0') and isinstance(v, bool):
            k, ts = lin(c.a[0])
            swept = any(x.op == 'iv' for x in ts)
            return any(x.op == 'len' for x in ts) and all(x.op == 'iv' or self.size(x) or swept and self.family(x) is not None for x in ts)
        if c.op == 'fits' and v is False:
            return True
        if c.op == 'has' and self.decls(c.a[0]) and not (v is True and is_decl_name(c.a[1])):
            return False
        if c.op == 'discr' and isinstance(v, frozenset):
            if c.a[0].op == 'get':
                return False
            return self.of_grammar(c.a[0])
        if c.op == 'field' and isinstance(v, bool):
            return self.of_grammar(c)
        return False

    def sweep(self, m):
        """The condition ends a loop over a list."""
        return m.data[0].op == 'gt0' and m.data[1] is False and any(x.op == 'iv' for x in lin(m.data[0].a[0])[1])

    def plain_loop(self, m, n):
        """Everything looked at in the loop that m ends is as well-formed grammars have it; and not every grammar fails."""
        L = next(x.a[0] for x in lin(m.data[0].a[0])[1] if x.op == 'iv')
        ins = [y for y in self.G.nodes if y.kind == 'cond' and L in y.loops and y is not m]
        return bool(ins) and all(self.plain(y) or y.data[0] is m.data[0] for y in ins)

    def size(self, x):
        """Length of a list written in the grammar, or a position in one."""
        if x.op == 'len':
            s = x.a[0]
            if self.of_grammar(s):
                return True
            if s.op == 'seqrep' and s.a[1] is EMPTY and s.a[3] is not None:
                # made from one, element by element or less
                return s.a[3].op == 'len' and self.size(s.a[3])
        return False

    def of_grammar(self, t):
        while t.op == 'elem':
            t = t.a[0]
        if t.op == 'field' and (t.a[3] in LISTS or t.a[3] in ('public', 'visibility', 'mutable', 'action', 'binder', 'pattern', 'symbol')):
            return True
        if t.op == 'field' and (t.a[1] or '').split('::')[0] in ('ast', 'grammar'):
            return self.of_grammar(t.a[0]) or t.a[0].op in ('parsed', 'lv')
        return False

    def judge(self, n, p):
        """An unexplained failure: reached on p."""
        rep = self.rep
        w = where(n)
        last = next((m for m in reversed(p) if m.kind == 'cond'), None)
        if last is not None and last.kind == 'cond':
            c = last.data[0]
            if c.op == 'fits':
                rep.viol('failure', w, 'numbers that fit in 16 bits are refused: %s' % show(c)[:150])
                return
            if self.limit(last) is not None:
                rep.viol('failure', w, 'more than %d of something are refused: %s' % (self.limit(last), show(c)[:150]))
                return
            if self.one_production is None and any(x.op == 'field' and x.a[3] == 'productions' and x.a[1] != 'ast::NonTerminal' for x in walk(c)):
                rep.und('failure', w, 'what productions an entry point has is not known: %s' % show(c)[:200])
                return
            if self.plain(last) and not self.before(last) and not (self.sweep(last) and not self.plain_loop(last, n)):
                rep.viol('failure', w, 'well-formed grammars are refused: %s' % show_path(p))
                return
            b = c.a[0] if c.op == 'discr' and last.data[1] == frozenset(['None']) else c if last.data[1] is False else None
            if b is not None and b.op == 'opq' and c.op == 'discr' and self.absent(b, p):
                rep.viol('failure', w, 'well-formed grammars have none of: %s' % show(b)[:200])
                return
            if b is not None and b.op in ('has', 'get') and self.decls(b.a[0]) and is_sym_name(b.a[1]) and self.goes_on(last, b.a[0]):
                rep.viol('failure', w, 'a name that is declared further down is refused: %s' % show(b)[:150])
                return
            if c.op == 'has' and last.data[1] is True and is_decl_name(c.a[1]) and self.decls(c.a[0]) and \
                    not {decl_kind(c.a[1])} & {decl_kind(x.data[1]) for x in self.maps[self.G.root(c.a[0])]}:
                rep.viol('failure', w, 'a name is refused for being that of another kind of declaration: %s' % show(c)[:150])
                return
            if c.op == 'has' and last.data[1] is True and self.maps.get(self.G.root(c.a[0])) and not self.decls(c.a[0]) and \
                    all(any(is_part(y) for y in walk(x.data[1])) for x in self.maps[self.G.root(c.a[0])]):
                rep.viol('failure', w, 'different names count as the same: %s' % show(c)[:150])
                return
        rep.und('failure', w, show_path(p))

    def absent(self, b, p):
        """What the library gives here is missing for some well-formed grammars."""
        fn = b.a[0].split('::')[-1]
        args = b.a[2]
        if not args:
            return False
        if b.a[0].endswith('nonzero::NonZero::new'):
            return self.size(args[0])
        if fn == 'from_digit':
            return args[0].op == 'iv' or self.size(args[0])
        if fn == 'next' and 'Chars' in b.a[0]:
            # the text of a token may be empty; a name is not
            xs = list(walk(args[0]))
            return any(isinstance(x, T) and x.op == 'opq' and x.a[0] == 'core::str::chars' and self.token_text(x.a[2][0]) for x in xs)
        if fn in ('last', 'max', 'min', 'max_by', 'max_by_key', 'min_by', 'min_by_key', 'reduce') and 'Iterator' in b.a[0]:
            t = args[0]
            while isinstance(t, T) and t.op == 'agg' and not (t.a[0] or '').endswith('SeqIter'):
                fs = [x for x in t.a[2] if isinstance(x, T)]
                t = fs[0] if fs else None
            seqs = [x for x in walk(t) if self.token_list(x) or self.family(mk('len', x)) == 'NonTerminalIdx'] if t is not None else []
            if not seqs or any(isinstance(x, T) and 'Chain' in str(show(x))[:2000] for x in args):
                return False
            return not any(m.kind == 'cond' and m.data[0].op in ('gt0', 'eq0') and any(y.op == 'len' and any(y.a[0] is z for z in seqs) for y in walk(m.data[0])) for m in p)
        return False

    def token_list(self, x):
        """A list that is empty for some well-formed grammars: the tokens, or something of each of them."""
        if x.op == 'field' and x.a[3] in ('conversions', 'terminals', 'productions', 'symbols', 'type_lifetimes'):
            return x.a[3] != 'productions'
        return x.op == 'seqrep' and x.a[1] is EMPTY and self.size(mk('len', x))

    def token_text(self, t):
        t = self.G.root(t)
        while t.op == 'elem':
            t = t.a[0]
        if t.op == 'field' and t.a[3] == 'from':
            return True
        return t.op == 'seqrep' and any(x.op == 'field' and x.a[3] == 'from' for x in walk(t))

    def before(self, m):
        """A length condition already settled by an earlier one."""
        c, v = m.data[0], m.data[1]
        if c.op not in ('gt0', 'eq0'):
            return False
        k, ts = lin(c.a[0])
        xs = [x for x in ts if x.op == 'len']
        if len(xs) != 1:
            return True
        if any(x.op == 'iv' for x in ts):
            return False
        told = lambda y: y.kind == 'cond' and y is not m and y.data[0].op in ('gt0', 'eq0') and xs[0] in lin(y.data[0].a[0])[1] and \
            (y.data[0].op == 'gt0') == (y.data[1] is True)
        return path(self.entry, lambda y: y is m, told) is None

    def limit(self, m):
        """The condition limits a number of things of a kind to so many."""
        c, v = m.data[0], m.data[1]
        if c.op != 'gt0' or not isinstance(v, bool):
            return None
        k, ts = lin(c.a[0])
        ls = [x for x in ts if x.op == 'len' or x.op == 'field' and x.a[3] == 'n_states']
        if not ls or len(ls) != len(ts) or len(set(ts.values())) != 1:
            return None
        q = list(ts.values())[0]
        # k - n > 0 fails, or n - k > 0 holds
        if q == -1 and v is False and 2 < k <= 65535:
            return k - 1
        if q == 1 and v is True and 2 <= -k <= 65535:
            return -k
        return None

    # ---- lookups -------------------------------------------------------------------------------------
    def lookups(self):
        G, rep = self.G, self.rep
        k = 0
        for n in G.nodes:
            if n.kind == 'idx':
                k += 1
                self.lookup(n)
            elif n.kind == 'key':
                k += 1
                mp, key = n.data[0], n.data[1]
                known = lambda m: m.kind == 'cond' and m.data[0].op == 'has' and m.data[0].a[0] is mp and m.data[0].a[1] is key and m.data[1] is True or \
                    m.kind == 'ins' and G.root(m.data[0]) is G.root(mp) and m.data[1] is key
                if path(self.entry, lambda m: m is n, known) is None or self.decls(mp) and is_decl_name(key) and self.all_declared(mp, key) and \
                        not self.goes_on(n, mp):
                    rep.ok('key', where(n), 'present')
                else:
                    rep.und('key', where(n), show(key)[:120])
            elif n.kind == 'arith' and n.data[0] == 'Sub':
                a, b = n.data[1], n.data[2]
                self.subtraction(n, a, b)
            elif n.kind == 'arith':
                self.arithmetic(n)
            elif n.kind == 'call' and n.data[0].split('::')[-1] in ('chunks', 'chunks_exact', 'rchunks', 'windows', 'step_by') and len(n.data[1]) == 2:
                b = n.data[1][1]
                if self.guarded(n, b):
                    rep.ok('chunk', where(n), show(b)[:100])
                elif self.size(b):
                    rep.viol('chunk', where(n), 'pieces of %s, which is zero for some grammars' % show(b)[:120])
                else:
                    rep.und('chunk', where(n), show(b)[:120])
        rep.note('positions looked up', k)

    def guarded(self, n, t):
        """t > 0 is known at n."""
        if t.op == 'int':
            return t.a[0] > 0
        k, ts = lin(t)
        if k > 0 and all(q > 0 and x.op in ('len', 'iv') for x, q in ts.items()):
            return True
        good = lambda m: m.kind == 'cond' and (m.data[0].op == 'gt0' and m.data[1] is True and self.implies(m.data[0].a[0], t) or
                                               m.data[0].op == 'gt0' and m.data[1] is False and self.implies(add(mul(m.data[0].a[0], -1), INT(1)), t) or
                                               m.data[0].op == 'eq0' and m.data[1] is False and m.data[0].a[0].op == 'len' and self.implies(m.data[0].a[0], t))
        if path(self.entry, lambda m: m is n, good) is not None:
            return False
        for x in walk(t):
            hs = self.G.hdrs.get(x.a[0], []) if x.op == 'iv' else self.home.get(x, []) if x.op == 'lv' else []
            if any(path(h, lambda m: m is n, good) is not None for h in hs):
                return False
        return True

    def short(self, t):
        """A condition that comes short of t > 0 by so many."""
        for m in self.G.nodes:
            if m.kind == 'cond' and m.data[0].op == 'gt0':
                k, ts = lin(sub(t, m.data[0].a[0] if m.data[1] is True else add(mul(m.data[0].a[0], -1), INT(1))))
                if not ts and -3 < k < 0:
                    return m, -k
        return None

    def implies(self, a, t):
        """a > 0 gives t > 0: t - a is a sum of things that are not negative."""
        k, ts = lin(sub(t, a))
        return k >= 0 and all(c > 0 and x.op in ('len', 'iv', 'field') for x, c in ts.items())

    def subtraction(self, n, a, b):
        rep = self.rep
        if a is None or b is None:
            rep.und('subtraction', where(n), 'overflow check')
            return
        t = add(sub(a, b), INT(1))
        if self.guarded(n, t) or b.op == 'int' and b.a[0] == 0:
            rep.ok('subtraction', where(n), show(sub(a, b))[:100])
            return
        k, ts = lin(sub(a, b))
        if k < 0 and len(ts) == 1 and self.size(list(ts)[0]):
            rep.viol('subtraction', where(n), '%s is negative for some grammars' % show(sub(a, b))[:120])
        else:
            rep.und('subtraction', where(n), show(sub(a, b))[:120])

    def arithmetic(self, n):
        """Divisions by zero, shifts by too much, and small counters."""
        rep = self.rep
        op, a, b, ty = n.data[0], n.data[1], n.data[2], n.data[3]
        if op in ('DivisionByZero', 'RemainderByZero'):
            if b is None:
                rep.und('division', where(n), 'what is divided by')
                return
            if b.op in ('bool', 'int') or self.guarded(n, b):
                rep.ok('division', where(n), show(b)[:100])
                return
            k, ts = lin(b)
            if k <= 0 and len(ts) == 1 and self.size(list(ts)[0]):
                rep.viol('division', where(n), 'division by %s, which is zero for some grammars' % show(b)[:120])
            else:
                rep.und('division', where(n), show(b)[:120])
        elif op in ('Shl', 'Shr') and b is not None:
            w = WIDTHS.get(ty, 128)
            if b.op == 'int' and b.a[0] < w or self.guarded(n, sub(INT(w), b)):
                rep.ok('shift', where(n), show(b)[:100])
            elif self.position(b) and ty in WIDTHS:
                rep.viol('shift', where(n), 'shifted by %s, which is not below %d for all grammars' % (show(b)[:120], w))
            else:
                rep.und('shift', where(n), show(b)[:120])
        elif ty in ('u8', 'i8') and a is not None and b is not None:
            top = 255 if ty == 'u8' else 127
            s = add(a, b) if op == 'Add' else None
            if a.op == b.op == 'int' or s is not None and self.guarded(n, sub(INT(top + 1), s)):
                rep.ok('counter', where(n), show(a)[:100])
            elif op == 'Add' and b.op == 'int' and b.a[0] > 0 and a.op in ('lv', 'iv'):
                rep.viol('counter', where(n), 'what is counted in %s has no such limit: %s' % (ty, show(s)[:120]))
            else:
                rep.und('counter', where(n), show(a)[:100])

    def position(self, t):
        """A position in a list of unlimited length."""
        while t.op == 'field' and (t.a[1] in ('tuple', '') or (t.a[1] or '').endswith('Idx')):
            t = t.a[0]
        if t.op == 'iv' or self.size(t):
            return True
        return t.op == 'elem' and unperm(t.a[0]).op == 'setseq'

    def family(self, L):
        """What the elements of a list of this length stand for."""
        if L.op != 'len':
            return None
        for x in (L.a[0], self.G.root(L.a[0])):
            n = x.a[3] if x.op == 'field' else None
            f = {'conversions': 'TerminalIdx', 'terminals': 'TerminalIdx', 'productions': 'ProductionIdx', 'non_terminals': 'NonTerminalIdx'}.get(n)
            if f:
                return f
            e = x.a[1] if x.op == 'lv' and len(x.a) > 1 else None
            if any(y.kind == 'push' and y.data[0].op == 'ptr' and y.data[0].a[1] and y.data[0].a[1][-1][0] == 'f' and y.data[0].a[1][-1][4] == 'non_terminals' and
                   len(y.data) > 2 and self.G.root(y.data[2]) is self.G.root(x) for y in self.G.nodes):
                return 'NonTerminalIdx'
        return None

    def sizes(self, seq, L):
        """Lengths the list is known to have at least."""
        out = [L]
        if seq is not None:
            r = self.G.root(seq)
            if r is EMPTY:
                return out
            grown = any(n.kind in ('pop', 'trunc', 'clear', 'rem', 'remove', 'retain') and isinstance(n.data[0], T) and n.data[0].op != 'ptr' and self.G.root(n.data[0]) is r
                        for n in self.G.nodes)
            if r is not seq and not grown:
                out.append(length(r))
        return out

    def bounded(self, n, i, Ls, d=0):
        """The position i is below one of the lengths at n."""
        if d > 4:
            return None
        for L in Ls:
            if self.guarded(n, sub(L, i)):
                return 'within the list'
        # read from a collection: as it was put there
        src = None
        t, proj = i, []
        while t.op == 'field' and t.a[1] in ('tuple', '') or t.op == 'field' and t.a[1] == OPTION and t.a[0].op == 'get':
            proj.append(t.a[3])
            t = t.a[0]
        if t.op == 'elem' and unperm(t.a[0]).op == 'setseq':
            puts = self.maps.get(self.G.root(unperm(t.a[0]).a[0]))
            if puts and proj in (['0'], []):
                vals = [(x, x.data[1]) for x in puts]
            elif puts and proj == ['1']:
                vals = [(x, x.data[2]) for x in puts]
            else:
                vals = None
        elif t.op == 'get':
            puts = self.maps.get(self.G.root(t.a[0]))
            vals = [(x, x.data[2]) for x in puts] if puts else None
        elif t.op == 'elem':
            puts = [x for x in self.G.kind('push') if len(x.data) > 2 and self.same_list(x.data[2], t.a[0])]
            vals = []
            for x in puts:
                v = x.data[1]
                for f in reversed(proj):
                    v = v.a[2][int(f)] if v.op == 'agg' and f.isdigit() and int(f) < len(v.a[2]) else None
                    if v is None:
                        break
                vals.append((x, v))
        else:
            vals = None
        if vals and all(v is not None and isinstance(v, T) for x, v in vals):
            if all(self.bounded(x, v, Ls, d + 1) or self.appended(v) for x, v in vals):
                return 'as it was recorded'
        return None

    def same_list(self, a, b):
        r = self.G.root(b)
        if r is EMPTY or r.op == 'seqrep':
            return a.op == 'lv' and b.op == 'lv' and a.a[1:] == b.a[1:]
        return self.G.root(a) is r

    def appended(self, v):
        """The position of an element that is being appended."""
        return v.op in ('len', 'lin') and any(x.kind == 'push' and len(x.data) > 2 and length(x.data[2]) is v for x in self.G.nodes)

    def inside(self, n, L, i):
        """The position is in the list, by what kind of number it is or how it was recorded."""
        s = L.a[0]
        Ls = self.sizes(s, L)
        ty = self.number_type(i)
        if ty is not None and ty in {self.family(x) for x in Ls}:
            return True
        return bool(self.bounded(n, i, Ls))

    def lookup(self, n):
        rep = self.rep
        seq, i, L, r = n.data[0], n.data[1], n.data[2], n.data[3] if len(n.data) > 3 else None
        w = where(n)
        rng = isinstance(r, tuple)
        Ls = self.sizes(seq, L)
        if rng:
            if self.guarded(n, add(sub(L, i), INT(1))):
                rep.ok('position', w, 'from %s' % show(i)[:80])
            else:
                k, ts = lin(sub(L, i))
                if self.short(add(sub(L, i), INT(1))):
                    rep.viol('position', w, 'a part that starts %d too far: %s' % (self.short(add(sub(L, i), INT(1)))[1], show(i)[:100]))
                elif i.op == 'int' and i.a[0] > 0 and seq.op == 'disp' and not any(
                        c.kind == 'cond' and c.data[0].op not in ('has', 'gt0', 'eq0') and seq in set(subterms(c.data[0])) for c in self.G.nodes):
                    rep.viol('position', w, 'a part of a name from byte %d, which can be inside a character' % i.a[0])
                elif k < 0 and len(ts) == 1 and self.size(list(ts)[0]):
                    rep.viol('position', w, 'a part from %s of a list that can be shorter' % show(i)[:100])
                else:
                    rep.und('position', w, 'from %s of %s' % (show(i)[:120], show(L)[:120]))
            return
        why = self.bounded(n, i, Ls)
        if why:
            rep.ok('position', w, why)
            return
        if i is L:
            rep.viol('position', w, 'position %s in a list of that length' % show(i)[:100])
            return
        if self.short(sub(L, i)):
            rep.viol('position', w, 'position %s is %d too far' % (show(i)[:100], self.short(sub(L, i))[1]))
            return
        ty = self.number_type(i)
        if ty is not None:
            fs = {f for f in (self.family(x) for x in Ls) if f}
            if ty in fs:
                rep.ok('position', w, 'a %s into a list with one entry for each' % ty)
            elif fs:
                rep.viol('position', w, 'a %s is used as a %s' % (ty, '/'.join(sorted(fs))))
            else:
                rep.und('position', w, '%s into %s' % (ty, show(L)[:200]))
            return
        if i.op == 'int':
            if self.single(i, L):
                rep.ok('position', w, 'an entry point has one production')
                return
            if self.one_production is None and any(x.op == 'field' and x.a[3] == 'productions' and x.a[1] != 'ast::NonTerminal' for x in walk(L)):
                rep.und('position', w, 'element %s of %s' % (show(i), show(L)[:120]))
                return
            if L.op == 'len' and self.of_grammar(L.a[0]):
                rep.viol('position', w, 'element %s of a list that can be empty: %s' % (show(i), show(L)[:120]))
                return
            if L.op == 'len' and self.of_some(L.a[0]):
                rep.viol('position', w, 'element %s of a list of the non-terminals, of which there may be none: %s' % (show(i), show(L)[:120]))
                return
        rep.und('position', w, '%s of %s' % (show(i)[:120], show(L)[:120]))

    def of_some(self, s):
        """A list with something of each non-terminal of the input, and of nothing else."""
        if s.op != 'seqrep' or s.a[1] is not EMPTY:
            return False
        ps = [p for _, p in s.a[2] if p]
        return bool(ps) and all(any(x.op == 'field' and x.a[2] == 'NonTerminal' and x.a[0].op == 'elem' for x in walk(mk('x', p))) for p in ps)

    def single(self, i, L):
        """Production 0 of an entry point, found among the recorded ones."""
        if i.a[0] != 0 or not self.one_production or L.op != 'len':
            return False
        s = L.a[0]
        b = fld(s, 'productions', 'NonTerminal')
        if b is None and s.op == 'seqrep' and s.a[3].op == 'len':
            b = fld(s.a[3].a[0], 'productions', 'NonTerminal')
        if b is None or b.op != 'elem':
            return False
        j = b.a[1]
        if not (j.op == 'field' and j.a[3] == '0' and j.a[0].op == 'elem' and unperm(j.a[0].a[0]).op == 'setseq'):
            return False
        puts = self.maps.get(self.G.root(unperm(j.a[0].a[0]).a[0]))
        if not puts:
            return False
        for x in puts:
            pub = lambda m: m.kind == 'cond' and m.data[1] is True and fld(m.data[0], 'public', 'NonTerminal') is not None and                 m.data[0].a[0].op == 'elem' and m.data[0].a[0].a[1] is x.data[1]
            hs = self.G.hdrs.get(x.loops[-1], []) if x.loops else self.entry
            if path(hs, lambda m: m is x, pub) is not None:
                return False
        return True

    def number_type(self, t):
        """The kind of number t is by what it was read from."""
        if t.op == 'field':
            if t.a[3] == 'non_terminal_idx':
                return 'NonTerminalIdx'
            if t.a[3] == 'production_idx':
                return 'ProductionIdx'
            if t.a[2] == 'NonTerminal' and t.a[3] == '0':
                return 'NonTerminalIdx'
            if t.a[2] == 'Terminal' and t.a[3] == '0':
                return 'TerminalIdx'
            if t.a[2] == 'Reduce' and t.a[3] in ('0', '1'):
                return ('NonTerminalIdx', 'ProductionIdx')[int(t.a[3])]
            if t.a[2] == 'Some' and t.a[0].op == 'field' and t.a[0].a[3] == 'lookahead':
                return 'TerminalIdx'
        return None


def is_part(x):
    return x.op == 'field' and x.a[3] in DECLARED


NAMES = ('type_name', 'non_terminal', 'name', 'field_name')


def part_kind(p):
    """What a part of an identifier's text is: literal text, a number, a name as written (maybe with r#), a name without r#, any text."""
    if isinstance(p, str):
        return 'literal'
    if p.op == 'str':
        return 'literal'
    raw = True
    while p.op in ('disp', 'clone', 'strfn', 'unraw', 'deref', 'cat', 'ident'):
        if p.op == 'unraw':
            raw = False
        if p.op == 'cat':
            ps = [x for x in p.a[0] if not (isinstance(x, str) and x == '')]
            if len(ps) != 1 or isinstance(ps[0], str):
                return None
            p = ps[0]
            continue
        if p.op == 'strfn':
            q = p.a[1]
            p = q[0] if isinstance(q, tuple) else q
            continue
        p = p.a[0]
    if p.op == 'field' and p.a[3] in NAMES:
        return 'name' if raw else 'plain name'
    if p.op == 'strof' or p.op == 'field' and p.a[3] == 'from' or p.op == 'elem' and p.a[0].op == 'field' and p.a[0].a[3] == 'terminals':
        return 'text'
    if p.op in ('iv', 'len', 'int', 'lin', 'lv', 'elem', 'old', 'get') or p.op == 'field' and p.a[3] == '0' or p.op == 'arith':
        return 'number'
    return None


def identifiers(R, rep):
    """The texts identifiers are made of are identifiers for all names."""
    seen = {}
    for n in R.G.kind('ident'):
        t, fn = n.data[0], n.data[1]
        ps = t.a[0] if t.op == 'cat' else (t,)
        ps = [p for p in ps if not (isinstance(p, str) and p == '')]
        w = where(n)
        bad = odd = None
        for i, p in enumerate(ps):
            k = part_kind(p)
            lit = p if isinstance(p, str) else p.a[0] if isinstance(p, T) and p.op == 'str' else None
            if k == 'literal':
                x = lit
                if i == 0 and x.startswith('r#') and fn == 'mk_ident':
                    x = x[2:]
                if not (('a' if i else '') + x).isidentifier() and not (x == '' and len(ps) > 1):
                    bad = 'has %r in it' % lit
            elif k == 'number':
                if i == 0:
                    bad = 'starts with a number'
            elif k == 'name':
                if i or fn != 'mk_ident':
                    bad = 'contains the r# of a raw identifier: %s' % show(p)[:80]
            elif k == 'text':
                bad = 'is the text of a string: %s' % show(p)[:80]
            elif k is None:
                odd = show(p)[:80]
        if bad:
            seen[w] = ('viol', bad)
        elif odd and seen.get(w, ('',))[0] != 'viol':
            seen[w] = ('und', odd)
        else:
            seen.setdefault(w, ('ok', show(t)[:80]))
    for w, (k, d) in sorted(seen.items()):
        if k == 'viol':
            rep.viol('identifier', w, 'the macro panics for an identifier that ' + d)
        elif k == 'und':
            rep.und('identifier', w, d)
        else:
            rep.ok('identifier', w, d)
    rep.note('identifiers made', len(seen))


def parsing(ctx, rep):
    """The parse functions refuse a text only for what is not found, or left, in it."""
    k = 0
    for ty in prims.AST_TYPES:
        t = notation.Text(ctx, ty, rep)
        entry = t.G.kind('entry')
        for n in t.G.nodes:
            if n.kind == 'ret':
                v = n.data[0]
                if not (v.op == 'agg' and v.a[1] == 'Err' or v.op == 'perr'):
                    continue
            elif n.kind != 'panic':
                continue
            k += 1
            w = '%s (%s)' % (where(n), notation.last(ty))

            def syntax(m):
                if m.kind != 'cond':
                    return False
                c, v = m.data[0], m.data[1]
                return c.op in ('parses', 'peek', 'pempty') or c.op in ('eq', 'eqv') and any(isinstance(x, T) and any(y.op in ('parsed', 'str') for y in walk(x)) for x in c.a)
            p = path(entry, lambda m: m is n, syntax)
            if p is None:
                # the last condition before it
                q = back(n, syntax)
                if q is None:
                    rep.ok('refused text', w, 'after text that is missing or left over')
                    continue
                if q.kind == 'cond' and q.data[0].op in ('gt0', 'eq0') and any(y.op in ('len', 'cap') for y in walk(q.data[0])):
                    rep.viol('refused text', w, 'a text is refused for its size: %s=%s' % (show(q.data[0])[:120], q.data[1]))
                    continue
                if q.kind == 'exit':
                    rep.ok('refused text', w, 'after a loop')
                    continue
                rep.und('refused text', w, '%s=%s' % (show(q.data[0])[:120], q.data[1]))
            else:
                rep.und('refused text', w, show_path(p))
    rep.note('ways to refuse a text', k)


def back(n, good):
    """A condition right before n (nothing but joins between) that is not good."""
    st, seen = [n], set()
    while st:
        for q in st.pop().pred:
            if q.id in seen:
                continue
            seen.add(q.id)
            if q.kind in ('cond', 'exit'):
                if not good(q):
                    return q
            else:
                st.append(q)
    return None


def check(ctx, rep, tier):
    if not ctx.assertions:
        ctx = base.Ctx(True)
    R = Refuse(ctx, rep)
    parsing(ctx, rep)
    R.failures()
    R.lookups()
    identifiers(R, rep)
    rep.note('event graph nodes', len(R.G.nodes))
