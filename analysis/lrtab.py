"""Recognition of the events that fill the LR table (build_lr1_table, everything inlined)."""
from lr import *

ROOT = 'build_lr1_table'


def is_action(t):
    return t is not None and t.op == 'agg' and t.a[0].split('::')[-1] == 'LRAction'


def key_tok(k):
    """Some(symbol's terminal) -> Sym"""
    if k.op == 'agg' and k.a[0] == OPTION and k.a[1] == 'Some':
        p = payload(k.a[2][0])
        if p and p[0] == 'Terminal':
            return p[1]
    return None


def item_terms(t):
    """Subterms that are an item of a state: states[s].items[j]."""
    out = []
    for x in walk(t):
        if x.op == 'elem':
            q = x.a[0]
            if q.op == 'setseq':
                q = q.a[0]
            if fld(q, 'items', 'LR1State') is not None:
                out.append(x)
    return out


def item_state(J):
    """(states sequence, state index) of an item term."""
    q = J.a[0]
    if q.op == 'setseq':
        q = q.a[0]
    b = fld(q, 'items', 'LR1State')
    if b is not None and b.op == 'elem':
        return b.a[0], b.a[1]
    return None


class Table(object):
    def __init__(self, ctx, rep):
        P = self.P = ctx.P
        item_fields(P)
        self.I = I = ctx.run(ROOT)
        self.G = G = Graph(I)
        self.A = self.Gt = self.N = None
        ix = {}
        adts = [k for k in P.adts if k.split('::')[-1] == 'LRTable']
        if len(adts) != 1:
            raise Undecided('table type not found')
        for r in I.rets:
            v = r.data[0]
            if not (v.op == 'agg' and v.a[0] == adts[0]):
                raise Undecided('unexpected result %s' % show(v)[:80])
            for f in ('action', 'goto', 'n_states'):
                j = P.field_index(adts[0], '', f)
                if j is None:
                    raise Undecided('table type has an unexpected representation')
                ix[f] = v.a[2][j]
            self.A, self.Gt, self.N = G.root(ix['action']), G.root(ix['goto']), ix['n_states']
        if not I.rets:
            rep.viol('result', ROOT, 'never returns a table')
            raise Undecided('no result')
        self.rows = {}
        self.acts = []
        self.gotos = []
        self.odd = []
        # an entry gets back what it held before
        self.back = []
        for n in G.nodes:
            if n.kind in ('ins', 'rem', 'store', 'extend', 'clear', 'push'):
                m = n.data[0]
                if n.kind == 'store':
                    if any(is_action(x) for d in n.data if isinstance(d, T) for x in [d]):
                        self.odd.append(n)
                    elif isinstance(m, tuple) and m[0] == 'slot' and self.table_of(m[1]):
                        self.odd.append(n)
                    continue
                w, row = self.where_row(m)
                if w == 'A' and n.kind == 'ins' and row is not None and self.former(n):
                    self.back.append((n, row))
                elif w == 'A' and n.kind == 'ins' and is_action(n.data[2]):
                    self.acts.append((n, row))
                elif w == 'G' and n.kind == 'ins':
                    self.gotos.append((n, row))
                elif w and row is None and n.kind == 'ins':
                    # an empty row
                    if not self.empty_row(n):
                        self.odd.append(n)
                elif w:
                    self.odd.append(n)

    def former(self, n):
        for x in walk(n.data[2]):
            if x.op in ('get', 'old') and len(x.a) >= 2 and x.a[1] is n.data[1] and isinstance(x.a[0], T) and self.where_row(x.a[0])[0] == 'A':
                return True
        return False

    def empty_row(self, n):
        v = n.data[2]
        return v is not None and (v is EMPTY or v.op in ('newmap', 'default', 'get'))

    def table_of(self, m):
        if not isinstance(m, T):
            return None
        r = self.G.root(m)
        return 'A' if r is self.A else 'G' if r is self.Gt else None

    def where_row(self, m):
        """Which table a container belongs to, and its row."""
        if not isinstance(m, T):
            return None, None
        w = self.table_of(m)
        if w:
            return w, None
        if m.op in ('slot', 'elem'):
            w = self.table_of(m.a[0])
            if w:
                return w, m.a[1]
        if m.op == 'field' and m.a[2] == 'Some' and m.a[0].op == 'get':
            w = self.table_of(m.a[0].a[0])
            if w:
                return w, m.a[0].a[1]
        return None, None

    def kind(self, n):
        return n.data[2].a[1]

    def item_of(self, n, row):
        """The item an action insertion is made for."""
        v = n.data[2]
        k = v.a[1]
        if k == 'Shift':
            s = key_tok(n.data[1])
            if s is not None and owner(s):
                return owner(s)[0]
        if k == 'Reduce':
            J = fld(v.a[2][0], 'non_terminal_idx', 'LR1Item')
            if J is not None:
                return J
        c = {}
        for t in [n.data[1], v] + list(n.facts):
            for x in item_terms(t):
                c[x] = c.get(x, 0) + 1
        if len(c) > 1:
            c = {x: 1 for x in c if x.a[1].op == 'iv' and x.a[1].a[0] in n.loops}
        if len(c) == 1:
            return list(c)[0]
        return None

    # decisions about item J
    def public(self, n, J):
        """Truth value that decision n establishes for 'the item's non-terminal is an entry'."""
        if n.kind != 'cond':
            return None
        t = fld(n.data[0], 'public', 'NonTerminal')
        at = nt_at(t) if t is not None else None
        if at and fld(at[1], 'non_terminal_idx', 'LR1Item') is J:
            return n.data[1]
        return None

    def cursor1(self, n, J):
        if n.kind == 'cond' and n.data[0].op == 'eq0':
            c, d = lin(n.data[0].a[0])
            if len(d) == 1 and cursor_of(J) in d and abs(d[cursor_of(J)]) == 1 and abs(c) == 1:
                return n.data[1]
        return None

    def done(self, n, J):
        """'the item is complete'"""
        v = complete_val(self.G, n, J)
        if v is not None:
            return v
        # next symbol looked up and missing / present
        if n.kind == 'cond' and n.data[0].op == 'gt0':
            pass
        return None

    def la(self, n, J):
        d = discr_cond(n)
        if d and own_la(d[0], J) == 'opt':
            return d[1]
        return None

    def nexts(self, n, J):
        """Kinds of the symbol after the dot that decision n establishes."""
        d = discr_cond(n)
        if d is None:
            return None
        s = sym_at(d[0])
        if s is None:
            return None
        o = owner(s)
        if o is None or o[0] is not J or o[1] is not INT(0):
            return None
        return d[1]

    # decisions about what a cell held before
    def old_cell(self, n, row, key):
        """Decision about the old content of cell (row, key): 'absent', 'present', or ('kind', names), or ('same', bool)"""
        if n.kind != 'cond':
            return None
        a, val = n.data
        if a.op == 'has':
            if self.where_row(a.a[0]) == ('A', row) and a.a[1] is key:
                return 'present' if val else 'absent'
            if self.table_of(a.a[0]) == 'A' and a.a[1] is row and val is False:
                return 'absent'
        if a.op == 'discr' and isinstance(val, frozenset):
            g = self.old_value(a.a[0], row, key)
            if g:
                return ('kind', val)
        if a.op in ('eq0', 'eqv', 'eq', 'discreq'):
            for x in walk(a):
                if self.old_value(x, row, key):
                    return ('same', val, a)
        return None

    def old_value(self, t, row, key):
        if t.op == 'field' and t.a[2] == 'Some' and t.a[0].op == 'get':
            g = t.a[0]
            return self.where_row(g.a[0]) == ('A', row) and g.a[1] is key
        return False

    def item_loop(self, J):
        """(item loop, its headers, state loop, its headers)"""
        L = J.a[1].a[0]
        st = item_state(J)
        S = st[1].a[0] if st and st[1].op == 'iv' else None
        return L, self.G.hdrs.get(L, []), S, self.G.hdrs.get(S, [])

    def iter_end(self, J):
        L, _, S, _ = self.item_loop(J)
        return lambda m: (m.kind == 'hdr' and m.data[0] in (L, S)) or m.kind == 'ret' or (m.kind == 'exit' and m.data[0] == L and m.data[1] is None and not self.G.only_panics(m))
