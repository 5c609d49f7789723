"""The emitted classification function and value function are read from the token template, arm by arm, for every kind of pattern; the
recursive helpers that print patterns and collect payload names are evaluated symbolically on their own for every kind of pattern. The numbering
of the terminals is followed on the event graph of lower."""
from base import *
from pats import *
import emit
import lowering
from shape import turns
from rules import c06


def conv_index(terms, conv):
    idx = set()
    for t in terms:
        for x in subterms(t):
            if x.op == 'elem' and x.a[0] is conv:
                idx.add(x.a[1])
    return idx


def permuted(terms, s):
    """A reordering of something made of s among the terms."""
    for t in terms:
        for x in subterms(t):
            if x.op == 'perm' and contains(x, s):
                return x
    return None


def terms_of(facts, nodes):
    out = [a for a, v in facts if a.op not in ('gt0', 'eq0', 'fits')]
    for q in walk_nodes(nodes):
        if isinstance(q, (Hole, Unk)):
            out.append(q.term)
    return out


class Tokens(object):
    def __init__(self, ctx, E, R, rep):
        self.ctx, self.E, self.R, self.rep = ctx, E, R, rep
        self.M = Model(E, R, rep)
        self.W = Wrap(self.M, R, rep)
        self.convadt = adt(ctx.P, 'Conversion')
        self.pats = {}

    def to(self, i):
        e = elem(self.W.conv, i)
        return self.E.I.field(e, self.convadt, '', self.ctx.P.field_index(self.convadt, '', 'to'), 'to')

    def functions(self):
        """(classification function, value function): both match the token type over the declarations."""
        cl, va = [], []
        for f in self.R.find('fn'):
            if f.owner is not None or f.body is None or f.loops():
                continue
            try:
                s, arms = match_arms(f.body)
            except Odd:
                continue
            if not any(it is not None and it.count is self.W.n_conv for it, _, _, _ in arms):
                continue
            r = [x for x in flat(f.ret) if nm(x) is not None]
            if len(r) == 1 and text(r[0]) in ('usize', 'u32', 'u16', 'u8', 'u64'):
                cl.append((f, s, arms))
            elif r and nm(r[0]) is self.W.type:
                va.append((f, s, arms))
        if len(cl) != 1 or len(va) != 1:
            raise Undecided('%d classification functions, %d value functions' % (len(cl), len(va)))
        return cl[0], va[0]

    def arms(self, f, arms, rule, what):
        """Arms in order of declaration: yields (X, facts, pattern, body)."""
        w = '%s fn %s' % (self.M.where, show(f.name))
        rep = self.rep
        seen = False
        out = []
        for it, facts, pat, body in arms:
            if it is None:
                p = flat(pat)
                if not seen:
                    rep.viol('order', w, 'the arm %s comes before the declared tokens' % repr(p)[:100])
                continue
            if it.count is not self.W.n_conv:
                if it.count is not None and lin(it.count)[1].keys() <= {self.W.n_conv}:
                    rep.viol('order', w, '%s arms for %s tokens' % (show(it.count), show(self.W.n_conv)))
                else:
                    rep.und('order', w, 'arms for %s' % show(it.count)[:100])
                continue
            seen = True
            idx = conv_index(terms_of(facts, pat), self.W.conv)
            if idx != {it.iv}:
                pm = permuted(terms_of(facts, pat), self.W.conv)
                if pm is not None:
                    rep.viol('order', w, 'the arms are not in the order of the declarations: %s' % show(pm)[:120])
                    continue
            if len(idx) != 1:
                if len(idx) > 1:
                    rep.viol('order', w, 'one arm mixes declarations %s' % ', '.join(show(x) for x in idx))
                else:
                    rep.und('order', w, 'arm without a declaration: %s' % repr(pat)[:100])
                continue
            X = idx.pop()
            if X is not it.iv:
                if lin(X)[1].keys() <= {it.iv, self.W.n_conv}:
                    rep.viol('order', w, 'arm %s is for declaration %s' % (show(it.iv), show(X)))
                else:
                    rep.und('order', w, 'arm %s is for declaration %s' % (show(it.iv), show(X)[:100]))
                continue
            out.append((X, facts, pat, body))
        return w, out

    def classify(self, f, s, arms):
        rep = self.rep
        w, out = self.arms(f, arms, 'classification', 'classification')
        P = self.pats['c'] = Pats(self.ctx, self.E.I, rep, 'classification pattern')
        for X, facts, pat, body in out:
            t = single_hole(flat(body))
            t = turns(self.E.I.loopinfo, t) if t is not None else None
            if t is None:
                rep.und('terminal index', w, repr(body)[:100])
            elif t is X:
                rep.ok('terminal index', w, 'arm k yields token k')
            elif lin(t)[1].keys() <= {X, self.W.n_conv}:
                rep.viol('terminal index', w, 'arm %s yields %s' % (show(X), show(t)))
            else:
                rep.und('terminal index', w, show(t)[:100])
            P.check(w, self.to(X), facts, pat, False, None)

    def value(self, f, s, arms, only_wrapper=False):
        rep = self.rep
        w, out = self.arms(f, arms, 'value', 'value')
        P = self.pats['v'] = Pats(self.ctx, self.E.I, rep, 'value pattern')
        for X, facts, pat, body in out:
            pay = None
            try:
                e = expr(body)
            except Odd as x:
                rep.und('value', w, str(x)[:150])
                continue
            name, args_ = None, None
            if e[0] == 'call' and e[1][0] == 'path':
                name, grp = e[1][1], flat(body)[-1]
                pay = payload_nodes(grp.parts)
            elif e[0] == 'path':
                name, pay = e[1], []
            if name is None or len(name) < 2 or name[-2] is not self.W.type and not (name[-2].op == 'str' and name[-2].a[0] == 'Self'):
                rep.und('value', w, repr(body)[:150])
                continue
            x = self.W.number(name[-1], self.W.tok_name)
            if x is None:
                if self.W.number(name[-1], self.W.nt_name) is not None:
                    rep.viol('value wrapper', w, 'a token is wrapped as a non-terminal: %s' % show(name[-1])[:100])
                else:
                    rep.und('value wrapper', w, 'wrapper %s' % show(name[-1])[:100])
            else:
                wt = self.W.tok_number(X)
                if wt is None:
                    rep.und('value wrapper', w, 'numbers of the token wrappers')
                elif x is wt:
                    rep.ok('value wrapper', w, 'token k is wrapped as token k')
                elif lin(sub(x, wt))[1].keys() <= {X, self.W.n_conv} or lossy(x, (X,)):
                    rep.viol('value wrapper', w, 'token %s is wrapped with number %s' % (show(X), show(x)))
                else:
                    rep.und('value wrapper', w, 'number %s' % show(x)[:100])
            if not only_wrapper:
                P.check(w, self.to(X), facts, pat, True, pay)

    def helpers(self):
        """Helpers called for the parts of a pattern are checked on their own, for any pattern."""
        done = set()
        for kind in ('c', 'v'):
            P0 = self.pats.get(kind)
            todo = set(P0.helpers) if P0 else set()
            while todo:
                h = todo.pop()
                if (h, kind) in done:
                    continue
                done.add((h, kind))
                todo |= self.helper(h, kind)
        return done

    def helper(self, h, kind):
        rep = self.rep
        I = self.ctx.run(h)
        w = h
        P = Pats(self.ctx, I, rep, ('classification' if kind == 'c' else 'value') + ' pattern')
        p0 = I.params[0]
        for r in I.rets:
            nodes = tpl.Norm().stream(r.data[0])
            facts = tpl.simp_facts(frozenset(r.facts.items()))
            if facts is None:
                continue
            if kind == 'c':
                P.check(w, p0, facts, nodes, False, None)
                continue
            acc, out = self.acc(I, h, r)
            if acc is None:
                rep.und('value pattern', w, 'payload of the helper')
                continue
            pay = payload_term(out, acc)
            P.check(w, p0, facts, nodes, True, pay, accs=length(acc))
        return P.helpers

    def acc(self, I, h, r):
        """(accumulator before, after) of a helper."""
        outs = [(i, t) for i, t in (r.data[1] if len(r.data) > 1 and isinstance(r.data[1], tuple) else ())]
        if len(outs) != 1:
            return None, None
        i, t = outs[0]
        return I.params[i - 1], t


def run(ctx, rep, only_wrapper=False):
    E = Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    rep.note('emitted templates', len(E.rets))
    for R in E.rets:
        T_ = Tokens(ctx, E, R, rep)
        (f, s, arms), (g, s2, arms2) = T_.functions()
        if not only_wrapper:
            T_.classify(f, s, arms)
        T_.value(g, s2, arms2, only_wrapper)
        if not only_wrapper:
            rep.note('pattern helpers', sorted('%s' % h for h, k in T_.helpers()))
            held(ctx, E, T_.W, rep)
    return E


def check(ctx, rep, tier):
    run(ctx, rep)
    L = lowering.Lower(ctx, rep)
    L.terminals()
    rep.assumptions.append('the emitted text is the value quote! builds from its template (models of quote and the token types)')
    rep.assumptions.append('rustc tries match arms in order; the pattern is user text of the kind parsed (C17)')
