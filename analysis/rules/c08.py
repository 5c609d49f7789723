"""The emitted parser loop, compiled to MIR (never run) and analysed as a transition system: where it pulls items, what becomes of a pulled
item on every path, and how a path with a lexer error, or with the end of input, ends."""
from base import *
from code import *
import emit
import driver
from driver import strip
from rules.c07 import Loop, desc


class Input(object):
    def __init__(self, lp, rep):
        self.lp, self.D, self.I, self.rep, self.w = lp, lp.D, lp.I, rep, lp.w

    def run(self):
        self.inputs()
        self.initial()
        for p in self.D.iter:
            self.step(p)
        for p in self.D.early:
            if p.end == 'ret':
                self.early(p)

    def inputs(self):
        """All items come from next() on the input parameter; nothing else touches it."""
        D, rep = self.D, self.rep
        ns = D.nexts(D.G.nodes)
        ps = {n.data[3][0].a[:2] for n in ns if n.data[3][0].op == 'ptr'}
        if len(ps) != 1 or any(n.data[3][0].op != 'ptr' for n in ns):
            rep.und('input', self.w, '%d iterators are pulled' % len(ps))
        self.ptr = ps
        other = [n for n in D.G.nodes if n.kind in ('call', 'icall') and n not in ns and any(isinstance(a, T) and a.op == 'ptr' and a.a[:2] in ps for a in n.data[3])]
        for n in other:
            rep.und('input', self.w, 'the input is also given to %s' % (show(n.data[0]) if isinstance(n.data[0], T) else n.data[0])[:100])
        if len(ps) == 1 and not other:
            first = [n for n in ns if n.data[1][0] in self.I.params]
            rep.check(bool(first), 'input', self.w, 'the iterator passed in', 'the items do not come from the iterator passed in')

    def item(self, r, facts):
        """Values the lookahead may take when it is to be the item r."""
        x = self.I.field(r, OPTION, 'Some', 0, '0')
        out = [r]
        f = facts.get(mk('discr', r))
        if f == frozenset(['None']):
            out.append(NONE)
        if f == frozenset(['Some']):
            out.append(SOME(x))
            if facts.get(mk('discr', x)) == frozenset(['Ok']):
                out += [SOME(OK(self.I.field(x, RESULT, 'Ok', 0, '0'))), SOME(self.I.field(x, RESULT, 'Ok', 0, '0'))]
            if facts.get(mk('discr', x)) == frozenset(['Err']):
                out += [SOME(ERR(self.I.field(x, RESULT, 'Err', 0, '0')))]
        return out

    def initial(self):
        D, rep = self.D, self.rep
        for h, c in D.before:
            ns = D.nexts(c)
            if len(ns) != 1:
                rep.viol('first item', self.w, '%d items are pulled before the first step' % len(ns))
                continue
            facts = dict(h.facts)
            for x in c:
                facts.update(x.facts)
                if x.kind == 'cond':
                    facts[x.data[0]] = x.data[1]
            lv = D.leaves(h.data[0])
            v = None
            st = self.I.loopinfo[h.data[0]]['headers'][h.data[1]][1]
            v = self.resolve(D.at(st, D.A), h.data[0])
            if v is None:
                rep.und('first item', self.w, 'lookahead before the first step')
            elif v in self.item(ns[0].data[2], facts):
                rep.ok('first item', self.w, 'the first item is the first lookahead')
            else:
                rep.viol('first item', self.w, 'the first lookahead is %s' % show(v)[:150])

    def resolve(self, v, L):
        """Initial value of a (partly) loop-carried value."""
        m = {sym: init for leaf, (k, init, sym) in self.D.leaves(L).items()}
        return subst(v, m) if v is not None else None

    def early(self, p):
        v = p.nodes[-1].data[0]
        ns = self.D.nexts(p.nodes)
        if len(ns) != 1:
            self.rep.viol('first item', self.w, 'a result after %d items and no step' % len(ns))
            return
        self.error(p, ns[0].data[2], v)

    def error(self, p, r, v):
        """The pulled item r is a lexer error and is returned."""
        rep = self.rep
        x = self.I.field(r, OPTION, 'Some', 0, '0')
        if p.facts.get(mk('discr', r)) == frozenset(['Some']) and p.facts.get(mk('discr', x)) == frozenset(['Err']):
            self.lexer(v, self.I.field(x, RESULT, 'Err', 0, '0'))
        else:
            rep.viol('step', self.w, 'a result is returned right after pulling an item: %s' % show(v)[:100])

    def lexer(self, v, err):
        rep = self.rep
        if v.op == 'agg' and v.a[1] == 'Err' and v.a[2][0].op == 'agg':
            e = v.a[2][0]
            if e.a[1] == 'LexerError':
                rep.check(e.a[2] == (err,), 'lexer error', self.w, 'returned unchanged', 'the lexer error returned is %s' % (show(e.a[2][0])[:150] if e.a[2] else 'nothing'))
                return
            rep.viol('lexer error', self.w, 'a lexer error is returned as %s' % e.a[1])
            return
        if v.op == 'agg':
            rep.viol('lexer error', self.w, 'on a lexer error the parser returns %s' % show(v)[:120])
        else:
            rep.und('lexer error', self.w, show(v)[:150])

    def step(self, p):
        D, rep, w, lp = self.D, self.rep, self.w, self.lp
        A, kind, pay = lp.entry(p)
        la, tok, raw = D.lookahead(p)
        ns = D.nexts(p.nodes)
        for k in p.inner:
            if D.nexts(p.inner[k]):
                rep.viol('pull', w, 'items are pulled in a loop inside a step')
                return
        if la == 'err':
            if ns:
                rep.viol('lexer error', w, 'an item is pulled although the lookahead is a lexer error')
            elif p.end != 'ret':
                rep.viol('lexer error', w, 'a lexer error as lookahead does not end the parse (%s)' % desc(p))
            else:
                self.lexer(p.nodes[-1].data[0], tok)
            return
        if p.end == 'panic':
            return
        if isinstance(A, list) or kind is None:
            if p.end == 'back':
                rep.und('step', w, 'a step without a table entry (%s)' % desc(p))
                return
            if isinstance(A, list):
                rep.und('step', w, 'a result without a table entry (%s)' % desc(p))
                return
        X, Y = D.entry(A, D.ACTION)
        # the entry is that of the lookahead
        c = lp.column(p, Y)
        if c is None:
            if Y.op == 'res' and Y.a[0] in D.cls and la is None:
                rep.und('column', w, 'lookahead not known (%s)' % desc(p))
            else:
                rep.und('column', w, show(Y)[:120])
        else:
            rep.check(c, 'column', w, 'of the lookahead', 'the table is read in column %s when the lookahead is %s' % (show(D.gen.nums.get(Y.a[0], Y) if Y.op == 'int' else Y)[:150], 'the end of input' if la == 'none' else 'a token'))
        want = 1 if kind == 'Shift' else 0
        if p.end == 'ret' and kind == 'Shift':
            # a lexer error found while shifting
            if len(ns) == 1:
                self.error(p, ns[0].data[2], p.nodes[-1].data[0])
            else:
                rep.viol('pull', w, 'the parse ends on a shift')
            return
        if len(ns) != want:
            if kind is None:
                rep.und('pull', w, 'entry not known')
            else:
                rep.viol('pull', w, 'on %s %d items are pulled' % ('no entry' if kind == 'None' else kind, len(ns)))
            return
        rep.ok('pull', w, '%s: %d items' % (kind, want))
        if p.end == 'ret':
            v = p.nodes[-1].data[0]
            if v.op == 'agg' and v.a[1] == 'Ok':
                rep.check(kind == 'Accept', 'success', w, 'only after acceptance', 'success is reported on %s' % kind)
            elif v.op == 'agg' and v.a[1] == 'Err':
                if v.a[2][0].op == 'agg' and v.a[2][0].a[1] == 'LexerError':
                    rep.viol('lexer error', w, 'a lexer error is reported without one')
            else:
                rep.und('success', w, show(v)[:120])
            return
        new = D.at(p.state, D.A)
        if kind == 'Shift':
            good = self.item(ns[0].data[2], p.facts)
            if new in good:
                rep.ok('lookahead', w, 'the pulled item becomes the lookahead')
            elif new.op in ('phi', 'sel', 'unk') :
                rep.und('lookahead', w, show(new)[:150])
            else:
                rep.viol('lookahead', w, 'after a shift the lookahead is %s' % show(new)[:150])
        else:
            old = D.at(D.head(p), D.A)
            if same(new, old, p, self.I):
                rep.ok('lookahead', w, '%s: kept' % kind)
            else:
                rep.viol('lookahead', w, 'on %s the lookahead becomes %s' % (kind, show(new)[:150]))


def same(a, b, p, I, d=0):
    """Equal values, where one may be written out as far as the facts of the path allow."""
    if a is b:
        return True
    if d > 3:
        return False
    if a.op == 'agg' and b.op == 'agg':
        return a.a[:2] == b.a[:2] and all(same(x, y, p, I, d + 1) for x, y in zip(a.a[2], b.a[2]))
    if b.op == 'agg':
        a, b = b, a
    if a.op == 'agg' and a.a[0] in (OPTION, RESULT):
        if p.facts.get(mk('discr', b)) != frozenset([a.a[1]]):
            return False
        return all(same(x, I.field(b, a.a[0], a.a[1], i, str(i)), p, I, d + 1) for i, x in enumerate(a.a[2]))
    return False


def check(ctx, rep, tier):
    E = emit.Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    seen = set()
    for R in E.rets:
        try:
            lp = Loop(ctx, E, R, rep)
        except Odd as e:
            rep.und('parser loop', 'emitted parser', str(e)[:200])
            continue
        if lp.D.gen.src in seen:
            continue
        seen.add(lp.D.gen.src)
        Input(lp, rep).run()
        rep.note('paths through the loop', len(lp.D.iter))
        rep.note('calls of next', len(lp.D.nexts(lp.D.G.nodes)))
    rep.assumptions.append('no token is shifted at the end of input: the table has shift entries for tokens only (C03, C04); acceptance is entered for the end of input only (C04)')
    rep.assumptions.append('cloning a lexer error yields an equal error; entry points pass the iterator on (C12)')
