"""The macro's entry point: what it does with the items of the parsed grammar."""
from base import *
import interp

LOWER, GEN = 'lower::lower', 'lr_codegen::generate_lr1_parser'


class Front(object):
    def __init__(self, ctx, rep, root='parser'):
        self.ctx, self.rep, self.P = ctx, rep, ctx.P
        lw, gn = ctx.body(LOWER).key, ctx.body(GEN).key
        self.lower, self.gen = lw, gn
        self.w = ctx.body(root).key
        self.I = ctx.run(root, opaque=(lw, gn))
        self.G = Graph(self.I)
        rep.note('entry point: event graph nodes', len(self.G.nodes))
        ps = [n for n in self.G.kind('parse')]
        self.parses = ps
        if len(ps) != 1:
            raise Undecided('the input is parsed %d times' % len(ps))
        b, ty, ver, kind = ps[0].data
        self.grammar = mk('parsed', ty, b, ver, kind)
        self.items = self.I.field(self.grammar, 'ast::Parser', '', self.P.field_index('ast::Parser', '', 'items') or 0, 'items')
        self.calls = {k: [n for n in self.G.kind('call') if n.data[0] == k] for k in (lw, gn)}

    # -- errors --------------------------------------------------------------------------------
    def errors(self):
        """A text that cannot be parsed gives the error, nothing else."""
        rep, G = self.rep, self.G
        bad = [n for n in G.kind('cond') if n.data[0].op == 'parses' and n.data[1] is False]
        if not bad:
            rep.und('syntax error', self.w, 'no outcome for a failed parse')
        for n in bad:
            p = path(n, lambda m: m.kind == 'ret', lambda m: m.kind == 'parse')
            while_ = [m for m in G.kind('ret') if path(n, lambda x: x is m, lambda x: x.kind == 'parse') is not None]
            for m in while_:
                v = m.data[0]
                err = [x for x in walk(v) if x.op == 'perr']
                if err:
                    rep.ok('syntax error', where(m), 'becomes the result')
                elif v.op in ('opq', 'phi', 'sel', 'res'):
                    rep.viol('syntax error', where(m), 'a grammar that cannot be parsed gives %s' % show(v)[:100])
                else:
                    rep.viol('syntax error', where(m), 'a grammar that cannot be parsed gives %s' % show(v)[:100])
            if not while_:
                rep.ok('syntax error', where(n), 'expansion fails')

    # -- items -------------------------------------------------------------------------------------
    def is_kind(self, n, k):
        """The item looked at is of kind k."""
        if n.kind != 'cond' or n.data[0].op != 'discr' or not isinstance(n.data[1], frozenset):
            return False
        x = n.data[0].a[0]
        return x.op == 'elem' and x.a[0] is self.items and n.data[1] == frozenset([k])

    def known(self, n):
        """Decisions that are followed exactly along a path."""
        if n.kind != 'cond':
            return True
        t = n.data[0]
        if t.op == 'discr':
            return True
        if t.op == 'parses':
            return True
        if t.op == 'gt0' and any(x.op == 'iv' and t.a[0] is sub(length(self.items), x) for x in walk(t)):
            return True
        return False

    def written(self, t):
        return t.op in ('gt0', 'eq0') and all(
            x.op == 'len' and self.in_item(x.a[0]) for x in lin(t.a[0])[1])

    def in_item(self, x):
        while x.op == 'field':
            x = x.a[0]
        return x.op == 'elem' and x.a[0] is self.items

    def verdict(self, p, rule, w, bad):
        odd = [n for n in p if not self.known(n)]
        eqs = [n for n in odd if n.data[0].op == 'eq' and any(x.op == 'elem' and x.a[0] is self.items for x in subterms(n.data[0]))]
        if len(eqs) == len(odd) and len({n.data[0] for n in eqs}) == 1 and len({n.data[1] for n in eqs}) == 1:
            odd = []    # one comparison of what is written: either outcome is possible
        if all(self.written(n.data[0]) for n in odd) and len({(n.data[0], n.data[1]) for n in odd}) == len({n.data[0] for n in odd}):
            odd = []    # sizes of what is written in the item: each outcome is possible
        if odd:
            self.rep.und(rule, w, 'depends on %s' % show(odd[0].data[0])[:120])
        else:
            self.rep.viol(rule, w, '%s: %s' % (bad, show_path(p)))

    def twice(self, kind, what):
        G, rep = self.G, self.rep
        ns = [n for n in G.nodes if self.is_kind(n, kind)]
        if not ns:
            rep.und('declared twice', self.w, '%s: no item of this kind is looked at' % what)
        for n in ns:
            for m in [m for m in ns if m.loops and n.loops and m.loops[0] == n.loops[0]]:
                # m in a later turn of the loop
                p = self.again(n, m, lambda x: not self.known(x)) or self.again(n, m, lambda x: False)
                if p is None:
                    rep.ok('declared twice', where(m), '%s: refused' % what)
                else:
                    self.verdict(p, 'declared twice', where(m), '%s is accepted a second time' % what)

    def again(self, n, m, avoid):
        """A path to acceptance through n and, in a later turn of its loop, m."""
        G, L = self.G, n.loops[0]
        leaves = lambda x: avoid(x) or x.kind == 'exit' and x.data[0] == L
        for h in G.hdrs.get(L, []):
            z = path(self.parses, lambda x: x is n, avoid)
            a = path(n, lambda x: x is h, leaves) if z else None
            b = path(h, lambda x: x is m, leaves) if a else None
            c = path(m, lambda x: x.kind == 'ret', avoid) if b else None
            if c:
                return z + a[1:] + b[1:] + c[1:]

    def missing(self):
        G, rep = self.G, self.rep
        for n in self.parses:
            no = lambda m: self.is_kind(m, 'TokenEnum')
            p = path(n, lambda m: m.kind == 'ret', lambda m: no(m) or not self.known(m)) or path(n, lambda m: m.kind == 'ret', no)
            if p is None:
                rep.ok('no token enum', self.w, 'refused')
            else:
                self.verdict(p, 'no token enum', self.w, 'a grammar without `enum Token` is accepted')

    # -- what goes on ----------------------------------------------------------------------------------
    def payload(self, v, kind):
        """v is the content of item iv of that kind -> loop."""
        if v.op == 'field' and v.a[2] == kind and v.a[0].op == 'elem' and v.a[0].a[0] is self.items:
            return v.a[0].a[1]
        return None

    def through(self):
        rep, G, I, w = self.rep, self.G, self.I, self.w
        lo, ge = self.calls[self.lower], self.calls[self.gen]
        if len(lo) != 1 or len(ge) != 1:
            rep.und('items', w, '%d calls of the lowering, %d of the generator' % (len(lo), len(ge)))
            return
        nts, conv = lo[0].data[1][:2]
        self.non_terminals(nts)
        # the generator gets the lowered grammar and the token enum
        g, te = ge[0].data[1][:2]
        rep.check(g is lo[0].data[2], 'items', w, 'the lowered grammar is what code is generated for', 'code is generated for %s' % show(g)[:120])
        for n in G.kind('ret'):
            v = n.data[0]
            if any(x.op == 'perr' for x in walk(v)):
                continue
            x = v
            while x.op in ('into', 'from', 'opq') and x is not ge[0].data[2] and x.op != 'opq':
                x = x.a[0]
            if x is ge[0].data[2]:
                rep.ok('items', where(n), 'the generated code is the result')
            elif contains(x, ge[0].data[2]):
                rep.und('items', where(n), 'the result is %s' % show(x)[:120])
            else:
                rep.viol('items', where(n), 'the result is %s' % show(x)[:120])
        # the token enum
        if conv.op == 'field' and conv.a[3] == 'conversions':
            rep.check(conv.a[0] is te, 'token enum', w, 'one for both steps', 'the lowering gets the tokens of %s, the generator %s' % (show(conv.a[0])[:80], show(te)[:80]))
        elif conv.op in ('perm', 'rev') and 'conversions' in show(conv):
            rep.viol('token enum', w, 'the order of the tokens is changed: %s' % show(conv)[:120])
        elif conv.op == 'seqrep' or conv.op == 'seq':
            if any(x.op == 'seqrep' and any(not p for f, p in x.a[2]) and 'conversions' in show(x) for x in walk(conv)):
                rep.viol('token enum', w, 'tokens are dropped: %s' % show(conv)[:120])
            else:
                rep.und('token enum', w, show(conv)[:120])
        else:
            rep.und('token enum', w, 'the lowering gets %s' % show(conv)[:120])
        self.token_enum(te)

    def token_enum(self, te):
        rep, I = self.rep, self.I
        if self.payload(te, 'TokenEnum') is not None:
            rep.ok('token enum', self.w, 'an item of the grammar')
            return
        if te.op != 'lv':
            rep.und('token enum', self.w, show(te)[:120])
            return
        L = te.a[0]
        li = I.loopinfo.get(L)
        places = [lf for lf, kd in I.mods.get(L, {}).items() if lf[0] != 'ver' and mk('lv', L, mk('leaf', *interp.leaf_key(lf))) is te]
        places += [lf for lf, (k, init, sym) in (li['leaves'].items() if li else ()) if sym is te]
        if not places:
            rep.und('token enum', self.w, show(te)[:120])
            return
        loc, pth = places[0]
        n = 0
        for s, H, tgt, d in li['backs']:
            v = s.mem.get(loc)
            v = I.get_leaf(v, pth) if v is not None else None
            if v is None or v is te:
                continue
            i = self.payload(v, 'TokenEnum')
            if i is not None and i.op == 'iv' and i.a[0] == L:
                n += 1
            else:
                rep.und('token enum', self.w, 'becomes %s' % show(v)[:120])
        rep.check(n > 0, 'token enum', self.w, 'an item of the grammar', 'the token enum is never set')

    def non_terminals(self, s):
        rep, I, w = self.rep, self.I, self.w
        ps = parts(s)
        if len(ps) != 1 or ps[0][0] != 's' or ps[0][1].op != 'seqrep':
            if s.op in ('opq', 'phi', 'sel', 'unk', 'lv'):
                rep.und('items', w, 'the lowering gets %s' % show(s)[:150])
            elif s.op == 'seq' and not ps:
                rep.viol('items', w, 'the lowering gets no non-terminals')
            else:
                rep.und('items', w, 'the lowering gets %s' % show(s)[:150])
            return
        x = ps[0][1]
        L, n = x.a[0], x.a[3]
        if x.a[1] is not EMPTY or n is None:
            rep.und('items', w, 'the lowering gets %s' % show(x)[:150])
            return
        if n is not length(self.items):
            rep.viol('items', w, '%s of the items are looked at' % show(n)[:80]) if not lin(sub(n, length(self.items)))[1] else rep.und('items', w, 'trips %s' % show(n)[:80])
            return
        rep.ok('items', w, 'every item is looked at')
        li = I.loopinfo[L]
        for s_, H, tgt, d in li['backs']:
            kind = None
            facts = dict(s_.facts)
            for f, v in facts.items():
                if f.op == 'discr' and f.a[0].op == 'elem' and f.a[0].a[0] is self.items and isinstance(v, frozenset):
                    kind = v
                    it = f.a[0]
            ds = [tuple(v) for lf, v in d.items() if tuple(v) in {p for f, p in x.a[2]}]
            add = ds[0] if ds else ()
            add = [e for e in (max(ds, key=len) if ds else ())]
            if kind is None:
                rep.und('items', w, 'an item of unknown kind')
            elif kind == frozenset(['NonTerminal']):
                want = [('e', I.field(it, 'ast::GrammarItem', 'NonTerminal', 0, '0'))]
                if list(add) == want:
                    i = it.a[1]
                    if i.op == 'iv':
                        rep.ok('items', w, 'a non-terminal is kept, in its place')
                    else:
                        rep.viol('items', w, 'the items are visited in the order %s' % show(i)[:80])
                elif not add:
                    rep.viol('items', w, 'a non-terminal is dropped (%s)' % ', '.join(show(f)[:60] + '=' + show(v)[:20] for f, v in facts.items() if not self.boring(f))[:200])
                elif len(add) > 1:
                    rep.viol('items', w, 'a non-terminal is added %d times' % len(add))
                else:
                    rep.und('items', w, 'a non-terminal becomes %s' % show(add[0][1])[:120])
            elif 'NonTerminal' not in kind:
                rep.check(not add, 'items', w, 'other items add none', 'another item adds %s' % (show(add[0][1])[:80] if add else ''))
            else:
                rep.und('items', w, 'items of kinds %s' % sorted(kind))

    def boring(self, f):
        return f.op in ('parses', 'gt0') or f.op == 'discr'
