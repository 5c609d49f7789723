"""The error paths of the emitted parser loop (compiled to MIR, never run) are compared with the table lookup that failed; the emitted arrays of
token names and of expected tokens are evaluated symbolically, entry by entry."""
from base import *
from code import *
from shape import *
import emit
import driver
import lowering
from driver import strip
from rules.c07 import Loop, desc
from rules import c06


class Errors(object):
    def __init__(self, lp, R, rep):
        self.lp, self.D, self.I, self.R, self.rep, self.w = lp, lp.D, lp.I, R, rep, lp.w
        self.M = lp.D.M
        self.names, self.expected = set(), set()

    def paths(self):
        D, rep, w, lp = self.D, self.rep, self.w, self.lp
        hit = False
        for p in D.iter:
            A, kind, pay = lp.entry(p)
            la, tok, raw = D.lookahead(p)
            v = p.nodes[-1].data[0] if p.end == 'ret' else None
            iserr = v is not None and v.op == 'agg' and v.a[1] == 'Err' and v.a[2][0].op == 'agg' and v.a[2][0].a[1] == 'ParserError'
            if kind != 'None':
                if iserr:
                    rep.viol('when', w, 'a syntax error is reported %s' % ('for a lexer error' if la == 'err' else 'although the entry is %s' % kind if kind else 'without looking up an entry'))
                continue
            hit = True
            if D.nexts(p.nodes):
                rep.viol('when', w, 'an item is pulled before a syntax error is reported')
            if p.end != 'ret' or v.op != 'agg':
                rep.viol('when', w, 'without an entry the parser does not report an error (%s)' % p.end) if p.end != 'ret' else rep.und('when', w, show(v)[:100])
                continue
            if not iserr:
                rep.viol('when', w, 'without an entry the parser returns %s' % show(v)[:100])
                continue
            rep.ok('when', w, 'no entry for the lookahead: syntax error')
            X, Y = D.entry(A, D.ACTION)
            c = lp.column(p, Y)
            S0 = D.at(D.head(p), D.S)
            rep.check(D.is_top(X, S0), 'when', w, 'entry of the current state', 'the entry is that of state %s' % show(X)[:100])
            if c is None:
                rep.und('when', w, 'column %s' % show(Y)[:100])
            else:
                rep.check(c, 'when', w, 'entry of the current token', 'the entry looked up is in column %s' % show(Y)[:100])
            e = v.a[2][0]
            fs = dict(zip([f for f in self.fields(e)], e.a[2]))
            if set(fs) != {'found', 'expected'}:
                rep.und('error', w, 'fields %s' % ', '.join(fs))
                continue
            self.ref(fs['found'], Y, 'found', self.names, 'the token')
            self.ref(fs['expected'], X, 'expected', self.expected, 'the state')
        if not hit:
            rep.und('when', w, 'no error path found')

    def fields(self, e):
        a = self.D.P.adts[e.a[0]]
        v = [v for v in a['variants'] if v['name'] == e.a[1]][0]
        return [f['name'] if isinstance(f, dict) else f for f in v['fields']]

    def ref(self, t, want, rule, acc, what):
        rep, w = self.rep, self.w
        if t.op == 'elem' and t.a[0].op == 'static':
            i = strip(t.a[1])
            acc.add(t.a[0])
            same = i is want or (self.D.is_top(i, self.S0()) and self.D.is_top(want, self.S0()))
            rep.check(same, rule, w, 'entry of %s' % what, '%s is entry %s of %s' % (rule, show(i)[:100], show(t.a[0])))
        elif t.op == 'str':
            rep.viol(rule, w, '%s is always %s' % (rule, show(t)[:60]))
        else:
            rep.und(rule, w, show(t)[:120])

    def S0(self):
        p = self.D.iter[0]
        return self.D.at(self.D.head(p), self.D.S)

    # -- the arrays ------------------------------------------------------------------------------
    def static(self, t):
        for c in self.R.find('static'):
            if mk('static', self.D.gen.ident(c.name)) is t:
                return c
        return None

    def arrays(self):
        rep = self.rep
        if self.names & self.expected:
            rep.viol('arrays', self.w, 'found and expected come from the same array')
            return
        for rule, acc, f in (('found', self.names, self.token_names), ('expected', self.expected, self.token_lists)):
            for t in acc:
                c = self.static(t)
                w = '%s static %s' % (self.M.where, show(t))
                if c is None or not (len(c.value) == 1 and isinstance(c.value[0], Grp) and c.value[0].delim == 'Bracket'):
                    rep.und(rule, w, 'array not read')
                    continue
                cs, n = cells(c.value[0].parts, w)
                f(cs, n, w)

    def text(self, ps):
        ps = [x for x in ps if not istok(x, ',')]
        t = single_hole(ps)
        if t is None and len(ps) == 1 and isinstance(ps[0], Tok):
            t = STR(ps[0].text.strip('"'))
        return t

    def token_names(self, cs, n, w):
        rep, M = self.rep, self.M
        seen = set()
        if n is not add(M.n_terms, INT(1)):
            d = sub(n, M.n_terms)
            if d.op == 'int':
                rep.viol('names', w, '%s names for %s tokens and the end of input' % (show(n), show(M.n_terms)))
            else:
                rep.und('names', w, '%s names' % show(n)[:100])
            return
        for loops, facts, off, ps in cs:
            t = self.text(ps)
            if t is None:
                rep.und('names', w, repr(ps)[:100])
                continue
            t = unname(t)
            if not loops and off is M.n_terms:
                seen.add('end')
                if t.op == 'str':
                    rep.check(t.a[0].strip() != '', 'names', w, 'end of input: %s' % t.a[0], 'the end of input has no name')
                else:
                    rep.viol('names', w, 'the name of the end of input is %s' % show(t)[:80])
            elif len(loops) == 1 and loops[0][0].count is M.n_terms:
                iv = loops[0][0].iv
                j = sub(off, iv)
                if j is not INT(0):
                    rep.viol('names', w, 'the name of token %s has index %s' % (show(iv), show(off)[:60]))
                    continue
                seen.add('tok')
                self.name(t, iv, 'names', w)
            elif not loops:
                rep.viol('names', w, 'the name at %s is %s' % (show(off)[:60], show(t)[:60]))
            else:
                rep.und('names', w, 'names repeated %s times' % show(loops[0][0].count)[:80])
        if seen != {'end', 'tok'}:
            rep.und('names', w, 'names found: %s' % sorted(seen))

    def name(self, t, i, rule, w):
        """t is the name of terminal i"""
        rep, M = self.rep, self.M
        if t is elem(M.terms, i):
            rep.ok(rule, w, 'the declared text')
            return True
        if t.op == 'elem' and t.a[0] is M.terms:
            rep.viol(rule, w, 'the name of token %s is that of %s' % (show(i)[:40], show(t.a[1])[:60]))
        elif any(x is elem(M.terms, i) for x in walk(t)) or t.op in ('str',):
            rep.viol(rule, w, 'the name of token %s is %s' % (show(i)[:40], show(t)[:120]))
        else:
            pm = [x for x in walk(t) if x.op in ('perm', 'rev') and contains(x, M.terms)]
            if pm:
                rep.viol(rule, w, 'the names are not in the order of the tokens: %s' % show(t)[:100])
            else:
                rep.und(rule, w, show(t)[:120])
        return False

    def token_lists(self, cs, n, w):
        rep, M = self.rep, self.M
        if n is not M.n_states:
            x = short(M.E.G, n, M.n_states, M.E.I)
            if x is not None:
                rep.viol('lists', w, 'fewer lists than states when %s' % x)
                return
            rep.und('lists', w, '%s lists' % show(n)[:100])
            return
        for loops, facts, off, ps in cs:
            if len(loops) != 1 or loops[0][0].count is not M.n_states:
                rep.und('lists', w, 'lists repeated %s' % ', '.join(show(l[0].count)[:60] for l in loops))
                continue
            if off is not loops[0][0].iv:
                rep.viol('lists', w, 'the list of state %s has index %s' % (show(loops[0][0].iv), show(off)[:80])) if lin(off)[1].keys() <= {loops[0][0].iv, M.n_states} else rep.und('lists', w, show(off)[:80])
                continue
            x = decisive([facts], [q[1] for q in cs if q[3]], loops[0][0].iv.a[0]) if not ps else None
            if x is not None:
                rep.viol('lists', w, 'a state has no list when %s is %s' % (show(x[0])[:150], x[1]))
                continue
            t = self.text(ps)
            if t is None:
                rep.und('lists', w, repr(ps)[:100])
                continue
            t = unname(t)
            if t.op == 'phi' or t.op not in ('join', 'seqrep', 'cat'):
                rep.und('lists', w, show(t)[:120])
                continue
            if t.op == 'join':
                q, sep = t.a[0], t.a[1]
                if not (sep.op == 'str' and sep.a[0]):
                    rep.check(sep.op != 'str', 'separator', w, '', 'the tokens are run together')
            else:
                rep.und('lists', w, show(t)[:120])
                continue
            self.row(q, off, w, facts)

    def row(self, q, r, w, facts):
        """The sequence has exactly the terminals with an entry in row r, in order."""
        rep, M = self.rep, self.M
        if q.op in ('perm', 'rev'):
            rep.viol('lists', w, 'the tokens are not in order of declaration: %s' % show(q)[:100])
            return
        if q.op == 'slice' and (q.a[1].op == 'int' and q.a[1].a[0] > 0 or q.a[2] is not None and q.a[2].op == 'int'):
            rep.viol('lists', w, 'only a part of the tokens is listed: %s to %s' % (show(q.a[1]), show(q.a[2]) if q.a[2] is not None else 'the end'))
            return
        if q.op == 'seq' and len(q.a[0]) == 1 and q.a[0][0][0] == 's':
            q = q.a[0][0][1]
        elif q.op == 'seq':
            ex = [x for k, x in q.a[0] if k == 'e']
            if ex:
                rep.viol('lists', w, 'also lists %s' % show(ex[0])[:80])
                return
        if q.op != 'seqrep' or not (q.a[1] is EMPTY or (q.a[1].op == 'seq' and not q.a[1].a[0])):
            pm = [x for x in walk(q) if x.op in ('perm', 'rev')]
            if pm:
                rep.viol('lists', w, 'the tokens are not in order of declaration: %s' % show(q)[:100])
            else:
                rep.und('lists', w, 'tokens %s' % show(q)[:120])
            return
        L, _, alts, trip = q.a[:4]
        iv = mk('iv', L)
        if trip is not M.n_terms:
            if trip is not None and lin(trip)[1].keys() <= {M.n_terms}:
                rep.viol('lists', w, '%s of %s tokens are considered' % (show(trip), show(M.n_terms)))
            elif len(q.a) > 4 and q.a[4] == 'part':
                rep.viol('lists', w, 'the tokens are not all considered')
            else:
                rep.und('lists', w, 'over %s' % show(trip or STR('?'))[:100])
            return
        for f, ps in alts:
            C = Cell(M.action, r, SOME(iv), list(f) + list(facts))
            for a, v in f:
                for x in walk(a):
                    C.look(x)
            st = C.state()
            if C.foreign:
                rep.viol('lists', w, 'whether a token is listed depends on another entry: %s' % show(C.foreign[0])[:200])
                continue
            if len(ps) > 1:
                rep.viol('lists', w, 'a token is listed %d times' % len(ps))
                continue
            if C.kinds is not None and st != 'absent':
                ks = {'Shift', 'Reduce', 'Accept'}
                if C.kinds != ks and ps == ():
                    rep.viol('lists', w, 'a token whose entry is %s is not listed' % '/'.join(sorted(C.kinds)))
                    continue
            odd = [a for a, v in f if a.op not in ('has', 'discr') and contains(a, iv)]
            if ps == ():
                if st == 'absent':
                    rep.ok('lists', w, 'no entry: not listed')
                elif st == 'present':
                    rep.viol('lists', w, 'a token with an entry is not listed (%s)' % c06.showf(f))
                elif not f or odd:
                    rep.viol('lists', w, 'a token is left out whatever the table says (%s)' % c06.showf(f))
                else:
                    rep.und('lists', w, 'nothing listed when %s' % c06.showf(f))
                continue
            if st == 'absent':
                rep.viol('lists', w, 'a token without an entry is listed (%s)' % c06.showf(f))
                continue
            if st is None and C.kinds is None:
                if f and not odd:
                    rep.und('lists', w, 'listed when %s' % c06.showf(f))
                else:
                    rep.viol('lists', w, 'a token is listed whatever the table says (%s)' % c06.showf(f))
                continue
            k, t = ps[0]
            if k != 'e':
                rep.und('lists', w, show(t)[:100])
                continue
            self.name(unname(t), iv, 'lists', w)


def unname(t):
    while t.op in ('disp', 'cast', 'tostr'):
        t = t.a[0]
    return t


def check(ctx, rep, tier):
    E = emit.Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    seen = set()
    for R in E.rets:
        try:
            lp = Loop(ctx, E, R, rep)
        except Odd as e:
            rep.und('parser loop', 'emitted parser', str(e)[:200])
            continue
        X = Errors(lp, R, rep)
        if lp.D.gen.src not in seen:
            seen.add(lp.D.gen.src)
            X.paths()
            known = (X.names, X.expected)
            rep.note('paths through the loop', len(lp.D.iter))
        else:
            X.names, X.expected = known
        X.arrays()
    L = lowering.Lower(ctx, rep)
    L.terminals()
    rep.assumptions.append('the emitted text is the value quote! builds from its template (models of quote and the token types)')
    rep.assumptions.append('token classification: C11; the emitted table is the computed one: C06')
