"""What the lowering of the parsed grammar builds: decided on the event graph of lower (everything it calls inlined) and on the terms
of the sequences it returns."""
from base import *
import emit
from lr import Rules
from shape import one_rep, some_of

ROOT = 'lower::lower'


def name_text(t):
    """Text of a name: the identifier it is written with, None when it is not a plain name."""
    while t.op in ('disp', 'ident', 'strof'):
        t = t.a[0]
    return t


class Lower(object):
    def __init__(self, ctx, rep, root=ROOT):
        self.ctx, self.rep, self.P = ctx, rep, ctx.P
        self.w = ctx.body(root).key
        self.I = I = ctx.run(root)
        self.G = G = Graph(I)
        self.R = Rules(rep, G)
        self.adts = {}
        rep.note('lowering: event graph nodes', len(G.nodes))
        self.NT = self.param('ast::NonTerminal', ('name', 'productions', 'visibility', 'type_decl'))
        self.TK = self.param('ast::Conversion', ('from',))
        self.ntpush = []      # (node, fields)
        self.prodpush = []    # (node, index of the non-terminal, fields)
        self.termpush = []
        for n in G.kind('push'):
            v = n.data[1]
            steps = n.data[0].a[1] if n.data[0].op == 'ptr' else None
            if steps is None:
                continue
            if v.op == 'agg' and self.is_('grammar::NonTerminal', v.a[0]):
                self.ntpush.append((n, self.fields(v)))
            elif v.op == 'agg' and self.is_('grammar::Production', v.a[0]):
                ix = [s[1] for s in steps if s[0] == 'i']
                self.prodpush.append((n, ix[0] if len(ix) == 1 else None, self.fields(v)))
            elif steps and steps[-1][0] == 'f' and steps[-1][-1] == 'terminals':
                self.termpush.append(n)
        self.maps()

    def is_(self, want, k):
        return str(k).split('::')[-1] == want.split('::')[-1] and str(k).startswith(want.split('::')[0])

    def adt(self, name):
        if name not in self.adts:
            k = [x for x in self.P.adts if self.is_(name, x) and self.P.adts[x].get('local')]
            if len(k) != 1:
                raise Undecided('type %s' % name)
            self.adts[name] = k[0]
        return self.adts[name]

    def fields(self, v):
        return {f['name']: v.a[2][j] for j, f in enumerate(self.variant(v.a[0], v.a[1])['fields'])} if v.a[1] == '' else None

    def variant(self, k, v):
        vs = self.P.adts[k]['variants']
        return vs[0] if len(vs) == 1 else [x for x in vs if x['name'] == v][0]

    def fld(self, t, adt, f, variant=''):
        k = self.adt(adt)
        return self.I.field(t, k, variant, self.P.field_index(k, variant, f) or 0, f)

    def param(self, adt, fs):
        """The parameter that is the sequence of values of this type."""
        k = self.adt(adt)
        hit = set()
        for n in self.G.nodes:
            for d in n.data:
                if not isinstance(d, T):
                    continue
                for x in walk(d):
                    if x.op == 'field' and x.a[1] == k and x.a[3] in fs and x.a[0].op == 'elem':
                        hit.add(base_seq(x.a[0].a[0]))
        if len(hit) != 1:
            raise Undecided('%s: sequence of %s' % (ROOT, adt))
        return hit.pop()

    def nt_elem(self, t):
        """t = NT[i] -> i"""
        if t.op == 'elem' and base_seq(t.a[0]) is self.NT:
            return t.a[1]
        return None

    def nt_name(self, t):
        """t = text of NT[i].name -> i"""
        t = name_text(t)
        if t.op == 'field' and t.a[1] == self.adt('ast::NonTerminal') and t.a[3] == 'name':
            return self.nt_elem(t.a[0])
        return None

    def tk_name(self, t):
        t = name_text(t)
        if t.op == 'field' and t.a[1] == self.adt('ast::Conversion') and t.a[3] == 'from' and t.a[0].op == 'elem' and base_seq(t.a[0].a[0]) is self.TK:
            return t.a[0].a[1]
        return None

    def maps(self):
        """Maps in which names are looked up."""
        self.ntmaps, self.tkmaps = set(), set()
        for n in self.G.kind('ins'):
            if n.data[2] is None:
                continue
            if self.nt_name(n.data[1]) is not None or any(self.nt_name(x) is not None for x in walk(n.data[1])):
                self.ntmaps.add(self.G.root(n.data[0]))
            elif self.tk_name(n.data[1]) is not None or any(self.tk_name(x) is not None for x in walk(n.data[1])):
                self.tkmaps.add(self.G.root(n.data[0]))

    def looked_up(self, t):
        """t = value found under a key -> (map root, key) or None"""
        o = some_of(t)
        if o is not None and o.op == 'get':
            return self.G.root(o.a[0]), o.a[1]
        return None

    # -- loops --------------------------------------------------------------------------------------------
    def full(self, L, seq, rule):
        """The loop visits every element of seq."""
        for e in self.G.exits.get(L, []):
            t = e.data[1]
            if t is None:
                self.rep.check(path(e, lambda m: m.kind in ('ret', 'hdr')) is None, rule, where(e), 'stops only by failing', 'the loop stops early')
            elif t is length(seq):
                self.rep.ok(rule, where(e), 'every one visited')
            elif not lin(sub(t, length(seq)))[1]:
                self.rep.viol(rule, where(e), '%s of %s visited' % (show(t)[:80], show(length(seq))[:80]))
            else:
                self.rep.und(rule, where(e), 'visits %s of %s' % (show(t)[:80], show(length(seq))[:80]))

    def in_order(self, i, rule, w, order=True):
        """(loop) when i counts up from 0; reports when it does not (order: the order matters)."""
        if i.op == 'iv':
            return i.a[0]
        d = lin(i)[1]
        ivs = [k for k in d if k.op == 'iv']
        if len(ivs) == 1:
            if not order:
                return ivs[0].a[0]
            self.rep.viol(rule, w, 'visited in the order %s' % show(i)[:80])
        else:
            self.rep.und(rule, w, 'index %s' % show(i)[:80])
        return None

    def every(self, L, ids, excuse, rule, w, good, bad):
        """Every iteration of L that does not fail passes one of the events ids (unless it passes an excuse)."""
        for h in self.G.hdrs.get(L, []):
            p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] == L) or m.kind == 'ret',
                     lambda m: m.id in ids or excuse(m) or (m.kind == 'exit' and m.data[0] == L))
            self.R.none(p, rule, w, good, bad)

    def once(self, n, ids, L, rule, bad):
        p = path(n, lambda m: m.id in ids, lambda m: m.kind == 'hdr' and m.data[0] == L)
        self.R.none(p, rule, where(n), 'once', bad)

    # -- tokens ---------------------------------------------------------------------------------------------
    def terminals(self):
        """Terminal k is the k-th declared token, under its text."""
        rep, G, R = self.rep, self.G, self.R
        for r in self.I.rets:
            t = self.fld(r.data[0], 'grammar::Grammar', 'terminals')
            x = one_rep(t)
            if x is None:
                if t is EMPTY:
                    rep.viol('terminals', where(r), 'no terminals')
                elif dropping(t):
                    rep.viol('terminals', where(r), 'a declaration gets no terminal of its own: %s' % show(t)[:100])
                else:
                    rep.und('terminals', where(r), show(t)[:150])
                continue
            L, trip, v = x
            i = self.tk_name(v)
            if i is None:
                rep.und('terminals', where(r), show(v)[:150])
            elif trip is not length(self.TK):
                rep.viol('terminals', where(r), '%s terminals for %s declarations' % (show(trip)[:80], show(length(self.TK))))
            elif i is mk('iv', L):
                rep.ok('terminals', where(r), 'one per declaration, in order')
            elif self.in_order(i, 'terminals', where(r)) is not None:
                rep.und('terminals', where(r), 'element %s' % show(v)[:100])
        ins = [n for n in G.kind('ins') if n.data[2] is not None and G.root(n.data[0]) in self.tkmaps]
        ids = {n.id for n in ins}
        loops = set()
        for n in ins:
            w = where(n)
            i = self.tk_name(n.data[1])
            if i is None:
                rep.viol('terminal index', w, 'entered under %s' % show(n.data[1])[:120])
                continue
            L = self.in_order(i, 'terminal index', w)
            if L is None:
                continue
            loops.add(L)
            self.full(L, self.TK, 'terminal index')
            v = n.data[2]
            ok = v is i or any(v is length(m.data[2]) and self.tk_name(m.data[1]) is i for m in self.termpush)
            d = [lin(sub(v, x))[0] for x in [i] + [length(m.data[2]) for m in self.termpush] if not lin(sub(v, x))[1]]
            if ok:
                rep.ok('terminal index', w, 'the own index')
            elif d:
                rep.viol('terminal index', w, 'a token gets the index %s' % show(v)[:80])
            elif self.looked_up(v) is not None and self.looked_up(v)[0] in self.tkmaps and self.tk_name(self.looked_up(v)[1]) is not i:
                rep.viol('terminal index', w, 'a token gets the index of %s' % show(self.looked_up(v)[1])[:80])
            else:
                rep.und('terminal index', w, show(v)[:100])
        if not ins:
            rep.und('terminal index', self.w, 'no table of token texts')
        for L in loops:
            self.every(L, ids, lambda m: False, 'terminal index', self.w, 'every declaration entered', 'a declared token is not entered')

    # -- non-terminals ------------------------------------------------------------------------------------------
    def nt_loop(self):
        ls = set()
        for n, f in self.ntpush:
            i = self.nt_name(f['non_terminal'])
            ii = {self.nt_name(x) for x in walk(f['non_terminal'])} - {None}
            i = i if i is not None else (ii.pop() if len(ii) == 1 else None)
            if i is None:
                self.rep.viol('non-terminal', where(n), 'named %s' % show(f['non_terminal'])[:120]) if f['non_terminal'].op == 'str' else \
                    self.rep.und('non-terminal', where(n), 'named %s' % show(f['non_terminal'])[:120])
                continue
            L = self.in_order(i, 'non-terminal', where(n))
            if L is not None:
                ls.add(L)
                self.full(L, self.NT, 'non-terminal')
                yield n, f, i, L

    def visibility(self, i, val):
        vis = self.fld(mk('elem', self.NT, i), 'ast::NonTerminal', 'visibility')

        def q(m):
            return m.kind == 'cond' and m.data[0].op == 'discr' and m.data[0].a[0] is vis and m.data[1] == frozenset([val])
        return q

    def non_terminals(self):
        """Every declared non-terminal is entered once, under its own name and type; entry points exactly for the pub ones."""
        rep, G, R = self.rep, self.G, self.R
        rows = list(self.nt_loop())
        if not rows:
            rep.und('non-terminal', self.w, 'no non-terminals recognised')
            return
        self.pub = [(n, f, i, L) for n, f, i, L in rows if f['public'] is TRUE]
        self.prv = [(n, f, i, L) for n, f, i, L in rows if f['public'] is FALSE]
        for n, f, i, L in rows:
            if f['public'] not in (TRUE, FALSE):
                rep.und('non-terminal', where(n), 'public is %s' % show(f['public'])[:80])
            ty = self.fld(mk('elem', self.NT, i), 'ast::NonTerminal', 'type_decl')
            rep.check(f['return_ty'] is ty, 'non-terminal type', where(n), 'the declared type', 'gets the type %s' % show(f['return_ty'])[:120])
            rep.check(f['productions'] is EMPTY, 'non-terminal', where(n), 'starts without productions', 'starts with productions %s' % show(f['productions'])[:80])
        ids = {n.id for n, _, _, _ in self.pub}
        for n, f, i, L in self.pub:
            rep.check(self.nt_name(f['non_terminal']) is i, 'entry point', where(n), 'under the declared name', 'the entry point is named %s' % show(f['non_terminal'])[:120])
            for h in G.hdrs.get(L, []):
                R.none(path(h, lambda m: m is n, self.visibility(i, 'Pub')), 'entry point', where(n), 'only for pub non-terminals', 'a non-terminal that is not pub becomes an entry point')
            self.once(n, ids, L, 'entry point', 'two entry points for one non-terminal')
        for L in {r[3] for r in rows}:
            i = mk('iv', L)
            priv = self.visibility(i, 'Priv')
            self.every(L, ids, priv, 'entry point', self.w, 'one for every pub non-terminal', 'a pub non-terminal gets no entry point')
        # names resolve to the non-terminal that holds the productions
        ins = [n for n in G.kind('ins') if n.data[2] is not None and G.root(n.data[0]) in self.ntmaps]
        iids = {n.id for n in ins}
        if not ins:
            rep.und('non-terminal index', self.w, 'no table of names')
        for n in ins:
            w = where(n)
            i = self.nt_name(n.data[1])
            if i is None:
                rep.viol('non-terminal index', w, 'entered under %s' % show(n.data[1])[:120])
                continue
            v = n.data[2]
            hit = [r for r in self.prv if v is length(r[0].data[2]) and r[2] is i]
            bad = [r for r in self.pub if v is length(r[0].data[2])]
            if hit:
                rep.ok('non-terminal index', w, 'the name stands for the non-terminal with the productions')
                if not any(path(r[0], lambda m: m is n, lambda m: m.kind == 'hdr' and m.data[0] == r[3]) is not None or
                           path(n, lambda m: m is r[0], lambda m: m.kind == 'hdr' and m.data[0] == r[3]) is not None for r in hit):
                    rep.viol('non-terminal index', w, 'the name is entered without the non-terminal')
            elif bad:
                rep.viol('non-terminal index', w, 'the name of a pub non-terminal stands for its entry point inside productions')
            elif any(not lin(sub(v, length(r[0].data[2])))[1] for r in rows):
                rep.viol('non-terminal index', w, 'the name stands for number %s' % show(v)[:80])
            else:
                rep.und('non-terminal index', w, show(v)[:100])
            L = i.a[0] if i.op == 'iv' else None
            if L is not None:
                self.once(n, iids, L, 'non-terminal index', 'a name is entered twice')
        for L in {r[3] for r in rows}:
            self.every(L, iids, lambda m: False, 'non-terminal index', self.w, 'every name entered', 'the name of a non-terminal is not entered')

    # -- productions --------------------------------------------------------------------------------------------------
    def entry_productions(self):
        """The entry point of a pub non-terminal has the one production that yields the value of the non-terminal."""
        rep, G, R = self.rep, self.G, self.R
        if not hasattr(self, 'pub'):
            return
        ok = set()
        for n, ix, f in self.prodpush:
            if ix is None:
                continue
            own = [r for r in self.pub if ix is length(r[0].data[2])]
            if not own:
                if any(ix is length(r[0].data[2]) for r in self.prv):
                    rep.viol('entry production', where(n), 'a production is added to the non-terminal itself')
                continue
            for r in own:
                ok.add((r[0].id, n.id))
                w = where(n)
                sy = f['symbols']
                es = [x for k, x in sy.a[0] if k == 'e'] if sy.op == 'seq' else None
                if es is None or len(es) != len(sy.a[0]):
                    rep.und('entry production', w, show(sy)[:120])
                    continue
                if len(es) != 1:
                    rep.viol('entry production', w, 'has %d symbols' % len(es))
                    continue
                b = self.fld(es[0], 'grammar::BoundSymbol', 'binder')
                s = self.fld(es[0], 'grammar::BoundSymbol', 'symbol')
                if s.op != 'agg':
                    rep.und('entry production', w, show(s)[:120])
                    continue
                if s.a[1] != 'NonTerminal':
                    rep.viol('entry production', w, 'derives a token')
                    continue
                y = s.a[2][0]
                if any(y is length(q[0].data[2]) and q[2] is r[2] for q in self.prv):
                    rep.ok('entry production', w, 'derives the non-terminal')
                elif not lin(sub(y, ix))[1] or y.op == 'int':
                    rep.viol('entry production', w, 'derives non-terminal %s' % show(y)[:80])
                else:
                    lk = self.looked_up(y)
                    if lk is not None and lk[0] in self.ntmaps and self.nt_name(lk[1]) is r[2]:
                        rep.ok('entry production', w, 'derives the non-terminal')
                    else:
                        rep.und('entry production', w, 'derives %s' % show(y)[:80])
                nmt = None
                if b.op == 'agg' and b.a[1] == 'Some':
                    nmt = name_text(self.fld(b.a[2][0], 'ast::Name', 'name'))
                act = f['action']
                used = {name_text(x) for x in walk(act) if x.op == 'ident'}
                if nmt is None:
                    if b is NONE:
                        rep.viol('entry production', w, 'the value of the non-terminal has no name')
                    else:
                        rep.und('entry production', w, show(b)[:80])
                elif used == {nmt}:
                    rep.check(act.op == 'agg' and act.a[1] == 'Path', 'entry production', w, 'yields its value', 'yields %s' % show(act)[:150]) if act.op == 'agg' else \
                        rep.und('entry production', w, show(act)[:120])
                elif used:
                    rep.viol('entry production', w, 'the value is named %s, the action uses %s' % (show(nmt), ', '.join(map(show, used))))
                else:
                    rep.und('entry production', w, show(act)[:120])
        for r in self.pub:
            ids = {b for a, b in ok if a == r[0].id}
            L = r[3]
            end = lambda m: (m.kind == 'hdr' and m.data[0] == L) or m.kind == 'ret'
            if not ids:
                rep.und('entry production', where(r[0]), 'production not found')
                continue
            R.none(path(r[0], end, lambda m: m.id in ids), 'entry production', where(r[0]), 'always', 'an entry point gets no production')
            for n in G.nodes:
                if n.id in ids:
                    self.once(n, ids, L, 'entry production', 'an entry point gets two productions')

    def listed(self, ix):
        """ix = position k of a list with the number of the non-terminal of every declaration: (k, None) or (k, what is wrong)"""
        if not (ix.op == 'elem' and ix.a[0].op == 'seqrep' and ix.a[0].a[1] is EMPTY and ix.a[0].a[3] is length(self.NT)):
            return None
        L = ix.a[0].a[0]
        rows = []
        for n, f in self.ntpush:
            ii = {self.nt_name(x) for x in walk(f['non_terminal'])} - {None}
            rows.append((n, f['public'], ii))
        for f, ps in ix.a[0].a[2]:
            if len(ps) != 1 or ps[0][0] != 'e':
                return None
            v = ps[0][1]
            mine = [r for r in rows if r[2] == {mk('iv', L)} and v is length(r[0].data[2])]
            if any(r[1] is TRUE for r in mine):
                return ix.a[1], 'productions are added to an entry point'
            if not any(r[1] is FALSE for r in mine):
                return None
        return ix.a[1], None

    def productions(self, order=True):
        """Production j of the k-th declaration is added, in order, to the non-terminal of that name, with its own action and symbols."""
        rep, G, R = self.rep, self.G, self.R
        found = False
        self.rows = []
        for n, ix, f in self.prodpush:
            w = where(n)
            if ix is None:
                rep.und('production', w, 'added to %s' % show(n.data[0])[:120])
                continue
            lk = self.looked_up(ix)
            pos = self.listed(ix)
            if pos is not None:
                found = True
                k = pos[0]
                if pos[1] is not None:
                    rep.viol('production', w, pos[1])
                    continue
                lk = (None, show(k))
            elif lk is None or lk[0] not in self.ntmaps:
                if any(not lin(sub(ix, length(r[0].data[2])))[1] for r in self.ntpush):
                    continue       # entry production
                rep.und('production', w, 'added to non-terminal %s' % show(ix)[:100])
                continue
            found = True
            k = self.nt_name(lk[1]) if pos is None else k
            if k is None:
                rep.und('production', w, 'added to the non-terminal named %s' % show(lk[1])[:100])
                continue
            L = self.in_order(k, 'production order', w, order)
            pr = self.fld(mk('elem', self.NT, k), 'ast::NonTerminal', 'productions')
            act = f['action']
            j = None
            a = act
            if a.op == 'field' and self.is_('ast::Action', a.a[1]):
                a = a.a[0]
            if a.op == 'field' and a.a[3] == 'action' and self.is_('ast::Production', a.a[1]) and a.a[0].op == 'elem':
                j = a.a[0].a[1]
                if base_seq(a.a[0].a[0]) is not pr:
                    rep.viol('production', w, 'a production of %s is added to the non-terminal named %s' % (show(a.a[0].a[0])[:80], (show(lk[1]) if isinstance(lk[1], T) else lk[1])[:80]))
                    continue
            if j is None:
                rep.und('production action', w, show(act)[:120])
                continue
            rep.ok('production action', w, 'the own action')
            Lj = self.in_order(j, 'production order', w, order)
            if L is None or Lj is None:
                continue
            if order:
                rep.ok('production order', w, 'in order')
            self.full(L, self.NT, 'production')
            self.full(Lj, pr, 'production')
            self.rows.append((n, k, j, f, L, Lj))
        ids = {r[0].id for r in self.rows}
        for n, k, j, f, L, Lj in self.rows:
            self.every(Lj, ids, lambda m: False, 'production', where(n), 'every production added', 'a production is dropped')
            lh = {h.id for h in G.hdrs.get(Lj, [])}
            self.every(L, lh, lambda m: False, 'production', where(n), 'of every non-terminal', 'the productions of a non-terminal are dropped')
            self.once(n, ids, Lj, 'production', 'a production is added twice')
        if not found:
            rep.und('production', self.w, 'no productions recognised')

    def symbols(self):
        """Symbol m of the production is symbol m written, with its own name."""
        rep = self.rep
        self.recs = set()
        if not hasattr(self, 'rows'):
            self.productions(False)
        for n, k, j, f, L, Lj in self.rows:
            w = where(n)
            pr = self.fld(mk('elem', self.NT, k), 'ast::NonTerminal', 'productions')
            S = self.fld(mk('elem', pr, j), 'ast::Production', 'symbols')
            s = f['symbols']
            if s.op != 'seqrep' or s.a[1] is not EMPTY:
                owner = {x.a[0] for x in walk(s) if x.op == 'field' and self.is_('ast::Production', x.a[1])}
                rep.und('symbols', w, show(s)[:150])
                continue
            d = emit.decisive([q for q, ps in s.a[2] if not ps], [q for q, ps in s.a[2] if ps], s.a[0])
            if d is not None:
                rep.viol('symbols', w, 'a symbol is dropped when %s is %s' % (show(d[0])[:150], d[1]))
                continue
            if s.a[3] is not length(S):
                early = [e for e in self.G.exits.get(s.a[0], []) if e.data[1] is None and not self.G.only_panics(e)]
                d = emit.decisive([e.facts for e in early], [b[0].facts for b in self.I.loopinfo[s.a[0]]['backs']], s.a[0]) if s.a[3] is None and s.a[0] in self.I.loopinfo else None
                if d is not None and any(e.data[1] is length(S) for e in self.G.exits.get(s.a[0], [])):
                    rep.viol('symbols', w, 'the rest of the symbols is dropped when %s is %s' % (show(d[0])[:150], d[1]))
                elif s.a[3] is not None and set(lin(s.a[3])[1]) <= {length(S)}:
                    rep.viol('symbols', w, '%s of %s symbols' % (show(s.a[3])[:80], show(length(S))[:80]))
                else:
                    rep.und('symbols', w, '%s symbols' % show(s.a[3])[:100])
                continue
            m = mk('iv', s.a[0])
            used = set()
            for fs, ps in s.a[2]:
                for t in [a for a, v in fs if a.op not in ('gt0', 'eq0', 'fits')] + [x for _, x in ps]:
                    for x in walk(t):
                        if x.op == 'elem' and base_seq(x.a[0]) is S:
                            used.add(x.a[1])
            if used != {m}:
                for x in used - {m}:
                    (rep.viol if set(lin(x)[1]) <= {m, length(S)} else rep.und)('symbols', w, 'symbol %s is taken for symbol %s' % (show(x)[:80], show(m)))
                if not used:
                    rep.und('symbols', w, 'symbols not recognised')
                continue
            for fs, ps in s.a[2]:
                self.symbol(w, mk('elem', S, m), NONE, fs, [(kk, x) for kk, x in ps], self.I)
        done = set()
        while self.recs - done:
            r = (self.recs - done).pop()
            done.add(r)
            self.helper(*r)

    def kind_of(self, S, fs):
        for a, v in fs:
            if a.op == 'discr' and a.a[0] is S:
                return v
        return None

    def symbol(self, w, S, B, fs, ps, I):
        """One alternative: what is added for the written symbol S bound to B (a term or NONE)."""
        rep = self.rep
        kind = self.kind_of(S, fs)
        if kind is None or len(kind) != 1:
            # names may be peeled first
            rep.und('symbols', w, 'for %s' % (kind,))
            return
        kind = list(kind)[0]
        p0 = self.fld(S, 'ast::Symbol', '0', kind)
        if kind == 'NamedSymbol':
            p1 = self.I.field(S, self.adt('ast::Symbol'), kind, 1, '1')
            inner = self.kind_of(p1, fs)
            if inner is not None:
                self.symbol(w, p1, SOME(p0), fs, ps, I)
                return
        if kind == 'Repeat':
            rep.viol('unsupported', w, 'a repeated symbol is accepted') if not ps else rep.und('unsupported', w, 'a repeated symbol adds %s' % show(ps[0][1])[:100])
            return
        if len(ps) != 1:
            rep.viol('symbols', w, 'a %s adds %d symbols' % (kind, len(ps)))
            return
        k, x = ps[0]
        if k == 's' and x.op == 'recout':
            if kind != 'NamedSymbol':
                rep.und('symbols', w, 'a %s is delegated' % kind)
                return
            args = x.a[1]
            p1 = self.I.field(S, self.adt('ast::Symbol'), kind, 1, '1')
            if not any(a is p1 for a in args):
                rep.viol('symbols', w, 'a named symbol adds %s' % ', '.join(show(a)[:60] for a in args))
                return
            if not any(a is SOME(p0) or a is p0 for a in args):
                rep.viol('symbol name', w, 'the name of a named symbol is dropped')
            else:
                rep.ok('symbol name', w, 'handed on')
            roles = tuple('sym' if a is p1 else 'bind' if a is SOME(p0) or a is p0 else 'ntmap' if self.G.root(a) in self.ntmaps or a is self.role.get('ntmap') else
                          'tkmap' if self.G.root(a) in self.tkmaps or a is self.role.get('tkmap') else 'out' if i == x.a[2] else '?' for i, a in enumerate(args))
            self.recs.add((x.a[0], roles))
            return
        if k != 'e':
            rep.und('symbols', w, show(x)[:100])
            return
        b = self.fld(x, 'grammar::BoundSymbol', 'binder')
        s = self.fld(x, 'grammar::BoundSymbol', 'symbol')
        if b is B:
            rep.ok('symbol name', w, 'the written name, or none')
        elif B is NONE and b.op == 'agg':
            rep.viol('symbol name', w, 'a symbol without name gets %s' % show(b)[:80])
        elif b is NONE:
            rep.viol('symbol name', w, 'the name of a symbol is dropped')
        else:
            rep.und('symbol name', w, show(b)[:80])
        if s.op != 'agg' or not self.is_('grammar::Symbol', s.a[0]):
            rep.und('symbols', w, show(s)[:100])
            return
        if kind not in ('Terminal', 'NonTerminal'):
            rep.und('symbols', w, 'a %s becomes %s' % (kind, show(s)[:100]))
            return
        if s.a[1] != kind:
            rep.viol('symbols', w, 'a %s becomes a %s' % (kind, s.a[1]))
            return
        lk = self.looked_up(s.a[2][0])
        if lk is None:
            rep.und('symbols', w, show(s)[:100])
            return
        ms, mine = (self.ntmaps, 'ntmap') if kind == 'NonTerminal' else (self.tkmaps, 'tkmap')
        if not (lk[0] in ms or lk[0] is self.role.get(mine)):
            other = self.tkmaps if kind == 'NonTerminal' else self.ntmaps
            (rep.viol if lk[0] in other else rep.und)('symbols', w, 'looked up in %s' % show(lk[0])[:80])
            return
        if name_text(lk[1]) is p0:
            rep.ok('symbols', w, '%s: the one of the written name' % kind)
        else:
            rep.viol('symbols', w, 'a %s is looked up as %s' % (kind, show(lk[1])[:100]))

    role = {}

    def helper(self, key, roles):
        """A function that handles a symbol recursively, on its own."""
        rep = self.rep
        I = self.ctx.run(key)
        G = Graph(I)
        ps = I.params
        if '?' in roles or len(ps) != len(roles):
            rep.und('symbols', key, 'arguments %s' % (roles,))
            return
        self.role = {r: p for r, p in zip(roles, ps)}
        S = self.role.get('sym')
        out = self.role.get('out')
        B = self.role.get('bind', NONE)
        if S is None or out is None:
            rep.und('symbols', key, 'arguments %s' % (roles,))
            return
        for r in I.rets:
            # the path decisions that lead here
            for fs, added in self.added(G, r, out):
                self.symbol(key, S, B, fs, added, I)
        self.role = {}

    def added(self, G, r, out):
        """Ways to a return: (facts, what is added to the sequence)."""
        res = []

        def back(n, fs, ps, seen):
            if len(res) > 200:
                return
            if n.kind == 'cond' and isinstance(n.data[1], (bool, frozenset)):
                fs = fs + [(n.data[0], n.data[1])]
            elif n.kind == 'push':
                ps = [('e', n.data[1])] + ps
            elif n.kind == 'rec':
                j = next((i for i, a in enumerate(n.data[1]) if a is out), 0)
                ps = [('s', mk('recout', n.data[0], n.data[1], j))] + ps
            elif n.kind == 'hdr':
                ps = [('s', mk('unk', 'loop'))] + ps
            if not n.pred:
                res.append((fs, ps))
            for m in n.pred:
                if m.id not in seen:
                    back(m, fs, ps, seen | {m.id})
        back(r, [], [], {r.id})
        return res

    # -- what is refused ------------------------------------------------------------------------------------------------
    def refused(self):
        rep, G, R = self.rep, self.G, self.R
        graphs = [(G, None)]
        for key, roles in sorted(getattr(self, 'recs', ())):
            graphs.append((Graph(self.ctx.run(key)), key))
        bad = {'Repeat': ('ast::Symbol', 'a repeated symbol'), 'Fallible': ('ast::Action', 'a fallible action')}
        for g, key in graphs:
            for n in g.nodes:
                if n.kind == 'cond' and n.data[0].op == 'discr' and isinstance(n.data[1], frozenset):
                    for v in n.data[1]:
                        if v in bad and n.data[0].a[0].op in ('elem', 'field', 'param'):
                            # until it is told apart
                            other = lambda m, n=n, v=v: m.kind == 'cond' and m.data[0] is n.data[0] and isinstance(m.data[1], frozenset) and v not in m.data[1]
                            p = path(n, lambda m: m.kind in ('ret', 'hdr'), other)
                            if p and len(n.data[1]) > 1 and any(
                                    k.kind == 'cond' and k.data[0].op == 'discr' and k.data[1] == frozenset([v]) and h.only_panics(k) for h, _ in graphs for k in h.nodes):
                                continue    # only looked at for another reason: refused where it is told apart
                            R.none(p, 'unsupported', where(n), 'refused', '%s is accepted' % bad[v][1])
                if n.kind == 'cond' and n.data[0].op == 'has' and n.data[1] is False:
                    m_, k_ = n.data[0].a[0], n.data[0].a[1]
                    kk = name_text(k_)
                    if kk.op == 'field' and self.is_('ast::Symbol', kk.a[1]):
                        p = path(n, lambda m: m.kind in ('ret', 'hdr'))
                        R.none(p, 'undeclared', where(n), 'refused', 'an undeclared %s is accepted' % ('token' if kk.a[2] == 'Terminal' else 'non-terminal'))
        # declared twice
        for what, seq, nm_ in (('token', self.TK, self.tk_name), ('non-terminal', self.NT, self.nt_name)):
            ins = [n for n in G.kind('ins') if nm_(n.data[1]) is not None]
            ks = {(G.root(n.data[0]), name_text(n.data[1])) for n in ins}
            ls = {nm_(n.data[1]).a[0] for n in ins if nm_(n.data[1]).op == 'iv'}
            if not ins:
                rep.und('declared twice', self.w, '%s: no table of names' % what)

            def fresh(val):
                return lambda m: m.kind == 'cond' and m.data[0].op == 'has' and m.data[1] is val and (G.root(m.data[0].a[0]), name_text(m.data[0].a[1])) in ks
            for L in ls:
                for h in G.hdrs.get(L, []):
                    ok = fresh(False)
                    p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] == L) or m.kind == 'ret', lambda m: ok(m) or (m.kind == 'exit' and m.data[0] == L))
                    R.none(p, 'declared twice', where(h), '%s: refused' % what, 'a %s declared twice is accepted' % what)

    # -- nothing else touches the result -----------------------------------------------------------------------------------
    def untouched(self):
        for n in self.G.nodes:
            if n.kind in ('pop', 'remove', 'truncate', 'clear', 'swap', 'sort', 'rev', 'del') or n.kind == 'store':
                d = n.data[0]
                if isinstance(d, T) and d.op == 'ptr' and any(self.P and s[0] == 'f' and s[-1] in ('non_terminals', 'terminals', 'productions', 'symbols') for s in d.a[1]):
                    self.rep.und('result', where(n), '%s of %s' % (n.kind, show(d)[:100]))


def dropping(t):
    """Some turns of the loop that builds t add nothing."""
    ps = parts(t)
    return len(ps) == 1 and ps[0][0] == 's' and ps[0][1].op == 'seqrep' and any(not p for _, p in ps[0][1].a[2]) and any(p for _, p in ps[0][1].a[2])


def base_seq(t):
    while t.op in ('slice',) and len(t.a) >= 1 and isinstance(t.a[0], T):
        t = t.a[0]
    return t
