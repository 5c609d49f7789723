"""The emitted parser loop is written out with its holes filled by distinct constants, compiled to MIR (never run) and analysed as a
transition system: on every path through an iteration the final values of both stacks are compared, as terms, with what the looked-up
table entry calls for; the action functions are executed symbolically on a stack of values."""
import re
import interp
from base import *
from code import *
import emit
import driver
import lowering
from shape import *
from wrap import Wrap
from driver import strip
from rules import c06, c10, c12
from rules.c12 import Keep


def desc(p):
    cs = [n for n in p.nodes if n.kind == 'cond']
    return ', '.join('%s=%s' % (show(n.data[0])[-60:], show(n.data[1]) if isinstance(n.data[1], T) else ('/'.join(sorted(n.data[1])) if isinstance(n.data[1], frozenset) else n.data[1])) for n in cs[-3:])


class Loop(object):
    def __init__(self, ctx, E, R, rep):
        self.rep = rep
        self.D = D = driver.Driver(ctx, E, R, rep)
        D.find_places()
        D.aliases()
        self.w = D.w0
        self.I = D.I

    # -- what the entry of the path is ----------------------------------------------------------
    def entry(self, p):
        """(cell term, kind, payload) of the one table entry looked up on the path."""
        D = self.D
        ls = D.lookups(p, D.ACTION)
        if len(ls) != 1:
            return ls, None, None
        A = ls[0]
        f = p.facts.get(mk('discr', A))
        if f is None:
            return A, None, None
        if f == frozenset(['None']):
            return A, 'None', None
        if f != frozenset(['Some']):
            return A, None, None
        pay = self.I.field(A, OPTION, 'Some', 0, '0')
        k = p.facts.get(mk('discr', pay))
        if k is None or len(k) != 1:
            return A, '?' if k is None else '/'.join(sorted(k)), pay
        return A, list(k)[0], pay

    def part(self, t, pay, variant, name):
        t = strip(t)
        return t.op == 'field' and t.a[0] is pay and t.a[2] == variant and (name is None or str(t.a[3]) == name)

    def column(self, p, Y):
        """The column is that of the lookahead."""
        D = self.D
        kind, x, raw = D.lookahead(p)
        if kind == 'none':
            return D.gen.nums.get(Y.a[0]) is D.M.n_terms if Y.op == 'int' else False
        if kind == 'tok':
            return Y.op == 'res' and Y.a[0] in D.cls and Y.a[1] == (x,)
        return None

    # -- initial state ---------------------------------------------------------------------------
    def initial(self):
        D, rep = self.D, self.rep
        for L in D.loops:
            lv = D.leaves(L)
            S = lv.get(D.S)
            V = lv.get(D.V)
            rep.check(S is not None and S[1].op == 'seq' and len(S[1].a[0]) == 1, 'initial stacks', self.w, 'the state stack holds the start state',
                      'the state stack starts as %s' % (show(S[1])[:100] if S else '?'))
            if V is None:
                rep.und('initial stacks', self.w, 'value stack is not changed by the loop')
            elif V[1] is EMPTY or (V[1].op == 'seq' and not V[1].a[0]):
                rep.ok('initial stacks', self.w, 'the value stack is empty')
            else:
                rep.viol('initial stacks', self.w, 'the value stack starts as %s' % show(V[1])[:100])

    # -- paths ------------------------------------------------------------------------------------
    def stacks(self):
        D, rep = self.D, self.rep
        n = 0
        for p in D.iter:
            A, kind, pay = self.entry(p)
            la, tok, raw = D.lookahead(p)
            n += 1
            if la == 'err' or kind == 'None':
                if p.end == 'back':
                    rep.viol('step', self.w, 'the loop goes on although %s' % ('the lookahead is a lexer error' if la == 'err' else 'there is no entry'))
                continue
            if isinstance(A, list) and p.end != 'panic':
                if len(A) > 1:
                    rep.viol('lookup', self.w, 'a step uses %d table entries: %s' % (len(A), ', '.join(show(x)[-80:] for x in A)))
                elif D.idle(p):
                    rep.viol('lookup', self.w, 'a step that changes nothing, looks nothing up and is repeated for ever (%s)' % desc(p))
                else:
                    rep.und('lookup', self.w, 'a step without a table entry (%s)' % desc(p))
                continue
            if p.end == 'panic':
                self.panic(p, kind)
                continue
            X, Y = D.entry(A, D.ACTION)
            H = D.head(p)
            S0 = D.at(H, D.S)
            rep.check(D.is_top(X, S0), 'lookup', self.w, 'row of the state on top of the stack', 'the table is read in row %s' % show(X)[:150])
            for k in list(p.inner):
                for y in p.inner[k]:
                    if y.kind in ('icall', 'call') and (y.kind == 'icall' or y in D.nexts([y])):
                        rep.und('step', self.w, 'a call inside a loop inside a step (%s)' % y.kind)
            if kind is None or kind == '?' or '/' in kind:
                if p.end == 'ret' and kind is not None:
                    self.wrong_end(p, kind)
                else:
                    rep.und('step', self.w, 'entry %s (%s)' % (kind, desc(p)))
                continue
            V0 = D.at(H, D.V)
            {'Shift': self.shift, 'Reduce': self.reduce, 'Accept': self.accept}.get(kind, self.other)(p, A, pay, la, tok, S0, V0, kind)
        return n

    def other(self, p, A, pay, la, tok, S0, V0, kind):
        self.rep.und('step', self.w, 'entry kind %s' % kind)

    def wrong_end(self, p, kind):
        v = p.nodes[-1].data[0]
        self.rep.viol('step', self.w, 'the parse ends on %s: %s' % (kind, show(v)[:120]))

    def panic(self, p, kind):
        """Panics where the table or the stacks rule the case out are no step."""
        D, rep = self.D, self.rep
        for t, v in p.facts.items():
            if t.op == 'gt0' and v is False and any(x.op == 'len' for x in walk(t.a[0])):
                rep.ok('panic', self.w, 'only on an empty stack')
                return
            if t.op == 'discr' and v == frozenset(['None']):
                if D.entry(t.a[0], D.GOTO) is not None:
                    rep.ok('panic', self.w, 'only without a goto entry')
                    return
                la, tok, raw = D.lookahead(p)
                if la == 'none' and kind == 'Shift':
                    rep.ok('panic', self.w, 'only when the end of input is to be shifted')
                    return
        A, kind, pay = self.entry(p)
        known = set() if isinstance(A, list) else set(walk(A)) | {A, pay}
        v = D.at(D.head(p), D.A)
        more = [n for n in p.nodes if n.kind == 'cond' and not (n.data[0].op == 'discr' and (n.data[0].a[0] in known or contains(n.data[0].a[0], v)))
                and not (n.data[0].op == 'gt0' and n.data[0].a[0].op == 'len' and n.data[1] is True)]
        if kind in ('Shift', 'Reduce', 'Accept') and not more:
            rep.viol('panic', self.w, 'the parser panics on %s (%s)' % (kind, desc(p)))
        else:
            rep.und('panic', self.w, desc(p))

    def icalls(self, p):
        return [n for n in p.nodes if n.kind == 'icall' and self.D.semantic(n.data[0]) is not None]

    def eager(self, p):
        """The path ends because the item it pulled is a lexer error: the next step would have been that error."""
        ns = self.D.nexts(p.nodes)
        if p.end != 'ret' or len(ns) != 1:
            return False
        r = ns[0].data[2]
        x = self.I.field(r, OPTION, 'Some', 0, '0')
        if p.facts.get(mk('discr', r)) != frozenset(['Some']) or p.facts.get(mk('discr', x)) != frozenset(['Err']):
            return False
        v = p.nodes[-1].data[0]
        return v.op == 'agg' and v.a[1] == 'Err' and v.a[2][0].op == 'agg' and v.a[2][0].a[1] == 'LexerError' and \
            v.a[2][0].a[2] == (self.I.field(x, RESULT, 'Err', 0, '0'),)

    def shift(self, p, A, pay, la, tok, S0, V0, kind):
        D, rep, w = self.D, self.rep, self.w
        if self.eager(p):
            if self.icalls(p):
                rep.viol('shift', w, 'a shift runs an action')
            else:
                rep.ok('shift', w, 'ends with the lexer error that follows (C08)')
            return
        if p.end != 'back':
            self.wrong_end(p, kind)
            return
        S, V = D.at(p.state, D.S), D.at(p.state, D.V)
        b, ps = D.split(S)
        k = D.popped(b, S0, p)
        if k is None:
            rep.und('shift', w, 'state stack %s' % show(S)[:150])
        elif k is not INT(0) or len(ps) != 1:
            rep.viol('shift', w, 'a shift removes %s states and adds %d' % (show(k), len(ps)))
        else:
            rep.check(self.part(ps[0], pay, 'Shift', None), 'shift', w, 'adds the next state', 'a shift adds state %s' % show(ps[0])[-150:])
        if self.icalls(p):
            rep.viol('shift', w, 'a shift runs an action')
            return
        b, ps = D.split(V)
        if b is not V0:
            k = D.popped(b, V0, p)
            if k is None:
                rep.und('shift', w, 'value stack %s' % show(V)[:150])
            else:
                rep.viol('shift', w, 'a shift removes %s values' % show(k)[:80])
            return
        if la == 'none':
            if ps:
                rep.und('shift', w, 'a value for the end of input')
            return
        if la != 'tok':
            rep.und('shift', w, 'lookahead not known (%s)' % desc(p))
            return
        if len(ps) != 1:
            rep.viol('shift', w, 'a shift adds %d values' % len(ps))
            return
        v = ps[0]
        good = v.op == 'res' and v.a[0] in D.tval and v.a[1] == (tok,)
        if good:
            rep.ok('shift', w, 'adds the value of the lookahead')
        elif v.op == 'res' and v.a[0] in D.tval:
            rep.viol('shift', w, 'a shift adds the value of %s' % show(v.a[1][0])[-120:])
        else:
            rep.und('shift', w, 'adds %s' % show(v)[-150:])

    def reduce(self, p, A, pay, la, tok, S0, V0, kind):
        D, rep, w = self.D, self.rep, self.w
        if p.end != 'back':
            self.wrong_end(p, kind)
            return
        S, V = D.at(p.state, D.S), D.at(p.state, D.V)
        calls = self.icalls(p)
        if len(calls) != 1:
            rep.viol('reduce', w, 'a reduction runs %d actions (%s)' % (len(calls), desc(p)))
            return
        n = calls[0]
        ix = D.semantic(n.data[0])
        rep.check(self.part(ix, pay, 'Reduce', 'semantic_action_idx'), 'reduce', w, 'runs the action of the entry', 'a reduction runs action %s' % show(ix)[-120:])
        # the action sees the value stack as it was, and nothing else touches it
        if n.data[1] != (V0,):
            rep.viol('reduce', w, 'the action runs on %s' % show(n.data[1][0])[:120])
        elif V is not mk('after', n.data[2], 0):
            b, ps = D.split(V)
            if b is mk('after', n.data[2], 0) or D.popped(b, mk('after', n.data[2], 0), p) is not None:
                rep.viol('reduce', w, 'after its action a reduction also changes the value stack: %s' % show(V)[:60])
            else:
                rep.und('reduce', w, 'value stack %s' % show(V)[:150])
        else:
            rep.ok('reduce', w, 'the value stack is changed by the action only')
        b, ps = D.split(S)
        k = D.popped(b, S0, p)
        if k is None and D.uneven(b, lambda t: self.part(t, pay, 'Reduce', 'n_symbols'), p):
            rep.viol('reduce', w, 'a reduction does not remove a state for every symbol: the loop leaves some in place')
            return
        if k is None:
            rep.und('reduce', w, 'state stack %s' % show(S)[:200])
            return
        if not self.part(k, pay, 'Reduce', 'n_symbols'):
            if k.op == 'int' or self.odd(k, pay):
                rep.viol('reduce', w, 'a reduction removes %s states' % show(k)[-120:])
            else:
                rep.und('reduce', w, 'removes %s states' % show(k)[-150:])
            return
        rep.ok('reduce', w, 'removes one state per symbol')
        if len(ps) != 1:
            rep.viol('reduce', w, 'a reduction adds %d states' % len(ps))
            return
        g = ps[0]
        q = g.a[0] if g.op == 'field' and g.a[2] == 'Some' else None
        e = D.entry(q, D.GOTO) if q is not None else None
        if e is None:
            rep.viol('reduce', w, 'a reduction adds state %s, which is no goto entry' % show(g)[-150:]) if g.op != 'phi' else rep.und('reduce', w, show(g)[:150])
            return
        rep.check(D.is_top(e[0], b), 'reduce', w, 'goto from the uncovered state', 'the goto entry is read in row %s' % show(e[0])[:150])
        rep.check(self.part(e[1], pay, 'Reduce', 'non_terminal_idx'), 'reduce', w, 'goto on the non-terminal of the entry', 'the goto entry is read in column %s' % show(e[1])[-150:])

    def odd(self, k, pay):
        """A count made of the parts of the entry, other than the number of symbols."""
        c, d = lin(k)
        return all(self.part(x, pay, 'Reduce', None) or self.reduced(x, pay) for x in d)

    def reduced(self, x, pay):
        """A part of the entry from which bits are dropped."""
        ok = x.op in ('arith', 'min', 'max') or x.op == 'opq' and re.search(r'::(min|max|clamp)$', str(x.a[0]))
        return bool(ok) and any(self.part(y, pay, 'Reduce', None) for y in walk(x)) and not any(y.op in ('phi', 'lv', 'sel') for y in walk(x))

    # -- conversions ------------------------------------------------------------------------------
    WIDTH = {'Shift': 32, 'Reduce': 16}

    def conversions(self):
        """A number of a table entry is not cut."""
        D, rep = self.D, self.rep
        for n in D.G.kind('cast'):
            if len(n.data) != 3 or not isinstance(n.data[0], T):
                continue
            v, a, b = n.data
            to = interp.INTS.get(b, 64) - (b[:1] == 'i')
            v = strip(v)
            if v.op == 'field' and v.a[2] in self.WIDTH and D.entry(v.a[0].a[0], D.ACTION) is not None if v.op == 'field' and v.a[0].op == 'field' else False:
                have = self.WIDTH[v.a[2]]
                rep.check(to >= have, 'conversion', self.w, 'fits', 'a %s number of a %s entry is cut to %s' % (a, v.a[2], b))
            elif to >= 32:
                rep.ok('conversion', self.w, 'states and columns fit')
            elif v.op == 'int':
                continue
            else:
                rep.und('conversion', self.w, '%s as %s' % (show(v)[-120:], b))

    def accept(self, p, A, pay, la, tok, S0, V0, kind):
        D, rep, w = self.D, self.rep, self.w
        if p.end != 'ret':
            rep.viol('accept', w, 'the loop goes on after acceptance')
            return
        v = p.nodes[-1].data[0]
        if not (v.op == 'agg' and v.a[1] == 'Ok'):
            rep.viol('accept', w, 'acceptance returns %s' % show(v)[:120])
            return
        calls = self.icalls(p)
        if len(calls) != 1:
            rep.viol('accept', w, 'acceptance runs %d actions' % len(calls))
            return
        n = calls[0]
        ix = D.semantic(n.data[0])
        if ix in self.I.params:
            self.p_action = self.I.params.index(ix)
            rep.ok('accept', w, 'runs the entry action')
        else:
            rep.viol('accept', w, 'acceptance runs action %s' % show(ix)[-120:])
        if n.data[1] != (V0,):
            rep.viol('accept', w, 'the entry action runs on %s' % show(n.data[1][0])[:120])
            return
        r = v.a[2][0]
        if not (r.op == 'icallv' and r.a[0] in self.I.params and len(r.a[1]) == 1):
            rep.und('accept', w, 'returns %s' % show(r)[:150])
            return
        self.p_extract = self.I.params.index(r.a[0])
        left = mk('after', n.data[2], 0)
        x = r.a[1][0]
        if x is elem(left, sub(length(left), INT(1))):
            rep.ok('accept', w, 'returns the value the entry action leaves')
        elif x.op == 'elem' and contains(x, left):
            rep.und('accept', w, 'returns %s' % show(x)[:100])
        else:
            rep.viol('accept', w, 'the value returned is %s' % show(x)[:150])

    # -- the entry points pass their arguments in these places ------------------------------------
    def arguments(self):
        D, rep, M = self.D, self.rep, self.D.M
        mp = M.E.I.field(M.auto, 'tuple', '', 1, '1')
        for f, e in D.calls:
            w = '%s fn %s::%s' % (M.where, show(f.owner.name)[:40], show(f.name))
            ls = f.loops()
            for k, ns in enumerate(e[2]):
                x = single_hole(flat(ns))
                if x is None:
                    try:
                        y = expr(ns)
                    except Odd:
                        continue
                    if y[0] == 'path' and len(y[1]) == 2 and hasattr(self, 'p_extract'):
                        rep.check(k == self.p_extract, 'arguments', w, 'extraction function', 'the extraction function is argument %d, the parser uses %d' % (k, self.p_extract))
                    continue
                t = c12.unwrap(x)
                if any(y.op == 'field' and str(y.a[3]) == 'action' for y in walk(t)):
                    if hasattr(self, 'p_action'):
                        rep.check(k == self.p_action, 'arguments', w, 'entry action', 'the entry action is argument %d, the parser runs argument %d' % (k, self.p_action))
                elif len(ls) == 1 and ls[0][0].count is not None and ls[0][0].count.op == 'len' and \
                        any(c12.is_state(y, ls[0][0].count.a[0], ls[0][0].iv) for y in walk(x)):
                    rep.check(k == D.p_state, 'arguments', w, 'start state', 'the start state is argument %d, the parser starts in argument %d' % (k, D.p_state))


def check(ctx, rep, tier):
    E = emit.Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    seen = {}
    for R in E.rets:
        try:
            lp = Loop(ctx, E, R, rep)
        except Odd as e:
            rep.und('parser loop', 'emitted parser', str(e)[:200])
            continue
        src = lp.D.gen.src
        if src not in seen:
            seen[src] = lp
            lp.initial()
            n = lp.stacks()
            lp.conversions()
            rep.note('paths through the loop', n)
            for q in lp.D.early:
                if q.end == 'ret':
                    rep.viol('step', lp.w, 'a result is returned before the first step: %s' % show(q.nodes[-1].data[0])[:100]) if not early_ok(q) else None
            lp.arguments()
        M, W = lp.D.M, lp.D.W
        hit = c06.action_order(M, R, Keep(rep, {'action order'}))
        keep = Keep(rep, {'pops', 'push', 'action function'})
        for f, a, b, _ in hit or ():
            F = c10.Fn(W, f, a.iv, b.iv, keep)
            try:
                F.run()
            except Odd as e:
                rep.und('action function', F.w, str(e)[:200])
        if not hit:
            rep.und('action functions', M.where, 'not identified')
    rep.assumptions.append('the table entries are those of a correct LR(1) table (C04, C05, C06): entries exist only where the stacks are deep enough')
    rep.assumptions.append('a value extracted with the wrong method panics; the methods match the values: C10, C18')


def early_ok(q):
    """A result before the loop: a lexer error as the first lookahead (C08)."""
    v = q.nodes[-1].data[0]
    return v.op == 'agg' and v.a[1] == 'Err'
