"""The emitted parser loop, analysed as a transition system: every iteration of the loop is a set of paths, each with the table entry it
looked up, what it does to the two stacks, which items it pulls from the input, and how it ends."""
import gen
import interp
from base import *
from terms import *
from code import Odd
from shape import last_ident

Undecided = Undecided
NEXT = 'core::iter::traits::iterator::Iterator::next'


def strip(t):
    while t.op == 'cast':
        t = t.a[0]
    return t


def some(t):
    """Payload of Some."""
    if t.op == 'agg' and t.a[1] == 'Some':
        return t.a[2][0]
    return mk('field', t, OPTION, 'Some', 0, '0') if False else None


def is_payload(t, variant):
    return t.op == 'field' and t.a[2] == variant


class Path(object):
    """One way through an iteration (or before or after the loop)."""

    def __init__(self):
        self.nodes = []
        self.facts = {}
        self.H = None
        self.end = None         # 'back' | 'ret' | 'panic'
        self.state = None
        self.inner = {}

    def events(self, *ks):
        return [n for n in self.nodes if n.kind in ks]


class Driver(object):
    def __init__(self, ctx, E, R, rep):
        self.gen = g = gen.Gen(ctx, E, R, rep)
        self.M, self.W, self.R, self.rep = g.M, g.W, R, rep
        self.tables()
        name = self.shared()
        try:
            self.c = g.context()
            self.P = self.c.P
        except RuntimeError as e:
            raise Undecided('the emitted parser could not be read: %s' % str(e)[-300:])
        self.name = name
        self.I = self.c.run(name, opaque=tuple(sorted(g.stubs)))
        self.G = Graph(self.I)
        self.w0 = '%s fn %s' % (self.M.where, name)
        self.roles()
        self.paths()

    # -- items of the emitted file --------------------------------------------------------------
    def tables(self):
        from rules import c06
        g, M, R = self.gen, self.M, self.R
        act = [c for c in c06.table_statics(R) if c06.uses_map(c.value, M.action)]
        got = [c for c in c06.table_statics(R) if c06.uses_map(c.value, M.goto) and not c06.uses_map(c.value, M.action)]
        if len(act) != 1 or len(got) != 1:
            raise Undecided('%d action arrays and %d goto arrays' % (len(act), len(got)))
        fa = c06.action_array(M, R, self.rep)
        self.ACTION, self.GOTO, self.SEM = [mk('static', g.ident(c.name)) for c in (act[0], got[0], fa)]

    def shared(self):
        """The function all entry points call."""
        from rules import c12
        self.calls = c12.parse_fns(self.gen.E, self.R, self.W)
        ns = {e[1][1][-1] for f, e in self.calls}
        if len(ns) != 1:
            raise Undecided('%d shared parser functions' % len(ns))
        n = self.gen.ident(ns.pop())
        if n in self.gen.stubs or n not in self.gen.fns:
            raise Undecided('the shared parser function cannot be read: %s' % (self.gen.skipped or ''))
        return n

    # -- roles of the variables -------------------------------------------------------------------
    def stub(self, pred):
        return [k for k in self.gen.stubs if k in self.P.bodies and pred(self.gen.fns[k])]

    def roles(self):
        I, G = self.I, self.G
        outer = [n for n in G.nodes if n.kind == 'hdr' and len(n.loops) == 1]
        if not outer:
            raise Undecided('no loop in the shared parser function')
        # loops before the main one have their own first id
        self.loops = []
        for n in outer:
            if n.data[0] not in self.loops:
                self.loops.append(n.data[0])
        # the main loops contain table lookups
        main = set()
        for n in G.nodes:
            for t in self.terms(n):
                if any(x is self.ACTION for x in walk(t)) and n.loops:
                    main.add(n.loops[0])
        self.loops = [l for l in self.loops if l in main]
        if not self.loops:
            raise Undecided('no loop looks up the action table')

    def terms(self, n):
        return [d for d in n.data if isinstance(d, T)]

    # -- paths -------------------------------------------------------------------------------------
    def chains(self, n):
        """All ways from a header of the main loop (or the entry) to n, without the full iterations of inner loops."""
        out = []
        work = [[n]]
        while work:
            c = work.pop()
            x = c[-1]
            if x.kind == 'entry' or (len(c) > 1 and x.kind == 'hdr' and x.data[0] in self.loops):
                out.append(c[::-1])
                if len(out) > 4000:
                    raise Undecided('too many paths')
                continue
            ps = x.pred
            if x.kind == 'hdr':
                ps = [p for p in ps if x.data[0] not in p.loops]
            for q in {p.id: p for p in ps}.values():
                if q in c:
                    continue
                work.append(c + [q])
        return out

    def make(self, n, end, state=None):
        out = []
        for c in self.chains(n):
            p = Path()
            p.nodes = c
            p.end, p.state = end, state
            h = c[0]
            p.H = h if h.kind == 'hdr' else None
            p.facts = dict(h.facts)
            ok = True
            for x in c:
                p.facts.update(x.facts)
            conds = {}
            for x in c:
                if x.kind == 'cond':
                    v = x.data[1]
                    w = conds.get(x.data[0])
                    if isinstance(v, frozenset) and isinstance(w, frozenset):
                        v = v & w
                        ok = ok and bool(v)
                    elif w is not None and w != v:
                        ok = False
                    conds[x.data[0]] = v
            if not ok:
                continue
            if state is not None:
                p.facts.update(state.facts)
            p.facts.update(conds)
            for x in c[1:]:
                if x.kind == 'hdr' and x.data[0] not in self.loops:
                    p.inner[x.data[0]] = [y for y in self.G.nodes if x.data[0] in y.loops and y is not x]
            out.append(p)
        return out

    def paths(self):
        G, I = self.G, self.I
        self.all = []
        for L in self.loops:
            for s, H, tgt, delta in I.loopinfo[L]['backs']:
                self.all += self.make(s.node, 'back', s)
        for n in G.nodes:
            if n.kind in ('ret', 'panic'):
                self.all += self.make(n, n.kind)
        self.before = []
        for L in self.loops:
            for h in G.hdrs[L]:
                for q in h.pred:
                    if L not in q.loops:
                        for c in self.chains(q):
                            if c[0].kind == 'hdr':
                                raise Undecided('nested main loops')
                            self.before.append((h, c))
        self.iter = [p for p in self.all if p.H is not None]
        self.early = [p for p in self.all if p.H is None]

    # -- places -----------------------------------------------------------------------------------
    def leaves(self, L):
        return self.I.loopinfo[L]['leaves']

    def at(self, state, place):
        """Value at a place in a state."""
        loc, path = place
        v = state.mem.get(loc)
        if v is None:
            return None
        return self.I.get_leaf(v, path) if path else v

    def head(self, p):
        """Header state of the path."""
        L = p.H.data[0]
        for k, t in self.I.loopinfo[L]['headers']:
            if t.node is p.H or t.node.id == p.H.id:
                return t
        return self.I.loopinfo[L]['headers'][p.H.data[1]][1]

    def idle(self, p):
        """The turn leaves everything as it was, and was taken because of how things were."""
        if p.end != 'back' or p.state is None or any(n.kind in ('call', 'icall', 'exit') for n in p.nodes):
            return False
        H = self.head(p)
        L = p.H.data[0]
        for leaf in self.leaves(L):
            a, b = self.at(H, leaf), self.at(p.state, leaf)
            if a is None or a is not b:
                return False
        return all(y.op not in ('res', 'opq', 'unk') for n in p.nodes if n.kind == 'cond' for y in walk(n.data[0]))

    def find_places(self):
        I = self.I
        self.S = self.V = self.A = self.In = None
        ps, vs = set(), set()
        self.p_state = None
        for L in self.loops:
            S0 = None
            for leaf, (kind, init, sym) in self.leaves(L).items():
                if init.op == 'seq' and len(init.a[0]) == 1 and init.a[0][0][0] == 'e' and strip(init.a[0][0][1]) in I.params:
                    ps.add(leaf)
                    self.p_state = I.params.index(strip(init.a[0][0][1]))
        for n in self.G.nodes:
            if n.kind == 'icall' and self.semantic(n.data[0]) is not None:
                a = n.data[3]
                if len(a) == 1 and a[0].op == 'ptr':
                    vs.add((a[0].a[0], tuple(a[0].a[1])))
        if len(ps) != 1:
            raise Undecided('%d candidates for the state stack' % len(ps))
        if len(vs) != 1:
            raise Undecided('%d candidates for the value stack' % len(vs))
        self.S, self.V = ps.pop(), vs.pop()
        # classification of the lookahead
        cs = set()
        self.cls = self.stub(lambda c: [x for x in c.ret if getattr(x, 'text', None) in ('usize', 'u32', 'u16', 'u8', 'u64')])
        self.tval = [k for k in self.gen.stubs if k in self.P.bodies and k not in self.cls]
        las = set()
        for n in self.G.nodes:
            if n.kind == 'call' and n.data[0] in self.cls and n.loops and n.loops[0] in self.loops:
                if len(n.data[1]) == 1:
                    las.add(self.base(n.data[1][0]))
        if len(las) != 1 or None in las:
            raise Undecided('%d candidates for the lookahead' % len(las))
        self.A = las.pop()

    def base(self, t):
        """Place of the lookahead a token term was taken from."""
        while t.op == 'field' and t.a[2] in ('Some', 'Ok'):
            t = t.a[0]
        for L in self.loops:
            for leaf, (kind, init, sym) in self.leaves(L).items():
                if sym is t:
                    loc, path = leaf
                    path = tuple(path)
                    while path and any(self.option(h, (loc, path[:-1])) for k, h in self.I.loopinfo[L]['headers']):
                        path = path[:-1]
                    return (loc, path)
            for k, h in self.I.loopinfo[L]['headers']:
                for leaf, kd in self.I.mods.get(L, {}).items():
                    loc, path = leaf
                    if loc != 'ver' and t.op == 'lv' and t.a[0] == L and t is mk('lv', L, mk('leaf', *interp.leaf_key(leaf))):
                        path = tuple(path)
                        while path and any(self.option(h, (loc, path[:-1])) for k, h in self.I.loopinfo[L]['headers']):
                            path = path[:-1]
                        return (loc, path)
        return None

    def option(self, h, place):
        v = self.at(h, place)
        return v is not None and v.op == 'agg' and v.a[0] in (OPTION, RESULT)

    def semantic(self, f):
        """Index into the array of action functions."""
        if f.op == 'elem' and f.a[0] is self.SEM:
            return strip(f.a[1])
        return None

    def entry(self, t, table):
        """(row, column) of a table cell."""
        if t.op == 'elem' and t.a[0].op == 'elem' and t.a[0].a[0] is table:
            return strip(t.a[0].a[1]), strip(t.a[1])
        return None

    # -- stacks --------------------------------------------------------------------------------------
    def popped(self, t, base, p=None):
        """t = base without its last k elements -> k."""
        n = INT(0)
        while t is not base:
            if t.op == 'slice' and t.a[1] is INT(0) and t.a[2] is not None:
                n = add(n, sub(length(t.a[0]), t.a[2]))
                t = t.a[0]
            elif t.op == 'drained' and t.a[2] is None:
                n = add(n, sub(length(t.a[0]), t.a[1]))
                t = t.a[0]
            elif t.op == 'lv':
                L = t.a[0]
                hs = [x for x in (p.nodes if p is not None else ()) if x.kind == 'hdr' and x.data[0] == L]
                li = self.I.hdrinfo.get(hs[0].id) if len(hs) == 1 else None
                lf = [(leaf, x) for leaf, x in (li['leaves'].items() if li else ()) if x[2] is t]
                if not lf or L in self.loops:
                    return None
                leaf, (kind, init, sym) = lf[0]
                trips = {x.data[1] for x in p.nodes if x.kind == 'exit' and x.data[0] == L}
                if len(trips) != 1 or None in trips:
                    return None
                step = None
                for s, H, tgt, delta in li['backs']:
                    k = self.popped(self.at(s, leaf), sym)
                    if k is None or k.op != 'int' or step not in (None, k.a[0]):
                        return None
                    step = k.a[0]
                if step is None:
                    return None
                n = add(n, mul(strip(list(trips)[0]), step))
                t = init
            else:
                return None
        return n

    def uneven(self, t, n, p):
        """t is left by a loop of n turns that takes an element off in some of them only, or stops early."""
        if t.op != 'lv' or t.a[0] in self.loops:
            return False
        L = t.a[0]
        hs = [x for x in p.nodes if x.kind == 'hdr' and x.data[0] == L]
        li = self.I.hdrinfo.get(hs[0].id) if len(hs) == 1 else None
        lf = [leaf for leaf, x in (li['leaves'].items() if li else ()) if x[2] is t]
        ends = [x for x in self.G.nodes if x.kind == 'exit' and x.data[0] == L]
        if not lf or not any(x.data[1] is not None and n(strip(x.data[1])) for x in ends):
            return False
        ks = [self.popped(self.at(s, lf[0]), t) for s, H, tgt, delta in li['backs']]
        if None in ks or any(k.op != 'int' for k in ks):
            return False
        early = any(x.data[1] is None and not self.G.only_panics(x) and not any(y.op == 'iv' and y.a[0] == L for a in x.facts for y in walk(a)) for x in ends)
        return len({k.a[0] for k in ks}) > 1 or early

    def split(self, t):
        """Stack value -> (value without the pushed elements, pushed elements)."""
        out = []
        while t.op == 'seq' and t.a[0] and t.a[0][-1][0] == 'e':
            out.append(t.a[0][-1][1])
            ps = t.a[0][:-1]
            t = ps[0][1] if len(ps) == 1 and ps[0][0] == 's' else mk('seq', ps)
        return t, out[::-1]

    def top(self, s):
        return strip(elem(s, sub(length(s), INT(1))))

    def aliases(self):
        """Loop variables that always hold the state on top of the stack."""
        self.alias = {}
        for L in self.loops:
            cand = {}
            for leaf, (kind, init, sym) in self.leaves(L).items():
                if strip(init) is self.I.params[self.p_state]:
                    cand[sym] = leaf
            while True:
                bad = set()
                for s, H, tgt, delta in self.I.loopinfo[L]['backs']:
                    S = self.at(s, self.S)
                    for sym, leaf in cand.items():
                        v = strip(self.at(s, leaf))
                        if v is self.top(S):
                            continue
                        if v in cand and S is self.at(tgt if False else H, self.S):
                            continue
                        bad.add(sym)
                if not bad:
                    break
                for b in bad:
                    del cand[b]
            for sym in cand:
                self.alias[sym] = L

    def is_top(self, t, S):
        t = strip(t)
        return t is self.top(S) or (t in self.alias and any(S is x[2] for x in self.leaves(self.alias[t]).values()))

    # -- what a path does --------------------------------------------------------------------------
    def lookups(self, p, table):
        out = []
        for k in list(p.facts) + [t for n in p.nodes for t in self.terms(n)]:
            for x in walk(k):
                e = self.entry(x, table)
                if e is not None and x not in out:
                    out.append(x)
        return out

    def lookahead(self, p):
        """('none'|'err'|'tok'|'end or token'..., term of the token or error, raw value)."""
        v = self.at(self.head(p), self.A)
        kind, x = self.variant(v, p, OPTION)
        if kind is None:
            return None, None, v
        if kind == 'None':
            return 'none', None, v
        if x is None:
            return None, None, v
        k2, y = self.variant(x, p, RESULT)
        if k2 == 'Ok':
            return 'tok', y, v
        if k2 == 'Err':
            return 'err', y, v
        if self.cooked(v):
            return 'tok', x, v
        return None, None, v

    def cooked(self, v):
        """The lookahead is kept without its Result."""
        for L in self.loops:
            for s, H, tgt, d in self.I.loopinfo[L]['backs']:
                for w in (self.at(H, self.A), self.at(s, self.A)):
                    if w.op == 'agg' and w.a[1] == 'Some':
                        y = w.a[2][0]
                        if y.op == 'field' and y.a[2] == 'Ok':
                            return True
        return False

    def variant(self, v, p, adt):
        if v.op == 'agg':
            return v.a[1], (v.a[2][0] if v.a[2] else None)
        f = p.facts.get(mk('discr', v))
        if f is None or not isinstance(f, frozenset) or len(f) != 1:
            return None, None
        k = list(f)[0]
        pay = [x for x in self.payloads(v, k)]
        return k, pay[0] if pay else None

    def payloads(self, v, k):
        if k == 'None':
            return []
        adt = OPTION if k == 'Some' else RESULT
        return [self.I.field(v, adt, k, 0, '0')]

    def nexts(self, nodes):
        return [n for n in nodes if n.kind == 'call' and (n.data[0] == NEXT or n.data[0].endswith('Iterator>::next'))]
