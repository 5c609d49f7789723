"""The emitted action functions are read from the token template: for every production and every right-hand-side symbol the statements
are executed symbolically on a stack of values (pops, extraction methods, bindings, the final push); function and array order are
compared with the numbering of the productions, and the lowering of the
written productions is followed on the event graph of lower."""
from base import *
from wrap import *
import emit
import lowering
from rules import c06


class Fn(object):
    def __init__(self, W, f, i, j, rep):
        self.W, self.M, self.f, self.i, self.j, self.rep = W, W.M, f, i, j, rep
        self.w = '%s fn %s' % (W.M.where, show(f.name))
        ps = flat(f.params.parts) if f.params is not None else []
        while ps and (is_(ps[0], 'mut') or istok(ps[0], '&')):
            ps = ps[1:]
        self.stack = nm(ps[0]) if ps else None
        self.syms = self.M.pfield(i, j, 'symbols')
        self.env = {}
        self.pushed = []
        self.facts = frozenset()
        self.drops = []

    def ev(self, e, pops):
        """Value of an expression; pops is the list of values taken so far."""
        k = e[0]
        if k == 'path':
            if len(e[1]) == 1 and e[1][0] in self.env:
                return self.env[e[1][0]]
            if len(e[1]) == 1 and e[1][0] is self.stack:
                return ('stack',)
            return ('path', e[1])
        if k == 'val':
            return ('val', e[1])
        if k == 'ref' or k == 'deref':
            return self.ev(e[1], pops)
        if k == 'block':
            inner = flat(e[1].parts)
            return self.ev(expr(inner), pops)
        if k == 'method':
            r = self.ev(e[1], pops)
            name = e[2].a[0] if e[2].op == 'str' else None
            if r == ('stack',):
                if name == 'pop' and not e[3]:
                    pops.append(('popped', len(pops)))
                    return ('opt', pops[-1])
                if name == 'push' and len(e[3]) == 1:
                    self.pushed.append((self.ev(expr(e[3][0]), pops), len(pops)))
                    return ('unit',)
                if name == 'len' and not e[3]:
                    return ('height', len(pops))
                if name == 'truncate' and len(e[3]) == 1:
                    a, rest = expr_(flat(e[3][0]))
                    b, end = expr_(rest[1:]) if rest and istok(rest[0], '-') else (None, rest)
                    if self.ev(a, pops)[0] == 'height' and not end and b is not None and b[0] == 'val':
                        self.drops.append(b[1])
                        return ('unit',)
                if name in ('last', 'first', 'get', 'is_empty', 'iter', 'as_slice', 'capacity'):
                    for x in e[3]:
                        self.ev(expr(x), pops)
                    return ('look', name)
                raise Odd('stack.%s' % show(e[2]))
            if r[0] == 'look':
                for x in e[3]:
                    self.ev(expr(x), pops)
                return r
            if r[0] == 'opt' and name in ('unwrap', 'expect', 'unwrap_unchecked'):
                return r[1]
            if r[0] == 'popped' and not e[3]:
                return ('ext', e[2], r)
            raise Odd('method %s of %s' % (show(e[2]), r[0]))
        if k == 'call':
            f = self.ev(e[1], pops)
            if f[0] == 'path' and len(e[2]) == 1:
                p = [x.a[0] if x.op == 'str' else None for x in f[1]]
                if p[-1] in ('drop', 'forget'):
                    self.ev(expr(e[2][0]), pops)
                    return ('unit',)
                a = self.ev(expr(e[2][0]), pops)
                if a[0] == 'popped' and f[1][-2:-1] and (f[1][-2] is self.W.type):
                    return ('ext', f[1][-1], a)
                return ('wrap', f[1], a)
            raise Odd('call')
        if k == 'tuple':
            return ('tuple',)
        raise Odd('expression %s' % k)

    def stmt(self, ns, pops, binds):
        s = statement(ns)
        if s[0] == 'let':
            v = self.ev(expr(s[3]), pops)
            name = s[2]
            if isinstance(name, Tok) and name.text == '_':
                return
            n = nm(name)
            if n is None:
                raise Odd('binding of %r' % name)
            self.env[n] = v
            if isinstance(name, Hole) and name.term.op != 'ident' or n.op != 'str':
                binds.append((n, s[1], v))
            return
        self.ev(expr(s[1]), pops)

    def run(self):
        rep, w = self.rep, self.w
        if self.stack is None or self.f.body is None:
            rep.und('action function', w, 'no stack parameter')
            return
        pieces_ = split(flat(self.f.body.parts), ';')
        done = False
        loops = 0
        extra = []
        for p in pieces_:
            if isinstance(p, Lst):
                for it in p.items:
                    if it.iv is None:
                        for f, ps in it.alts:
                            for q in split(flat(ps), ';'):
                                self.stmt(q, extra, [])
                        continue
                    loops += 1
                    self.loop(it)
            else:
                self.stmt(p, extra, [])
        if extra:
            rep.viol('pops', w, 'the function takes %d value(s) besides those of the symbols' % len(extra))
        n = len(self.pushed)
        if n != 1:
            rep.viol('push', w, 'the function puts %d values on the stack' % n)
            return
        if loops != 1:
            if loops == 0:
                rep.viol('pops', w, 'the values of the symbols are not taken off the stack')
            else:
                rep.und('pops', w, '%d loops over the symbols' % loops)
        v, _ = self.pushed[0]
        if v[0] != 'wrap':
            rep.und('push', w, 'pushes %s' % (v,)[:100] if False else 'pushes a %s' % v[0])
            return
        if len(v[1]) < 2 or v[1][-2] is not self.W.type:
            rep.und('push', w, 'wrapper %s' % '::'.join(show(x) for x in v[1]))
        else:
            x = self.W.number(v[1][-1], self.W.nt_name)
            if x is None:
                if self.W.number(v[1][-1], self.W.tok_name) is not None:
                    rep.viol('push', w, 'the result is wrapped as a token: %s' % show(v[1][-1])[:150])
                else:
                    rep.und('push', w, 'wrapper %s' % show(v[1][-1])[:150])
            else:
                r = self.W.nt_number(x, self.i)
                if r is None:
                    rep.und('push', w, 'wrapper number %s' % show(x)[:150])
                else:
                    rep.check(r, 'push', w, 'the result is wrapped as a value of the own non-terminal',
                              'the result of a production of non-terminal %s is wrapped with number %s' % (show(self.i), show(x)[:150]))
        act = self.M.pfield(self.i, self.j, 'action')
        if v[2][0] == 'val':
            rep.check(v[2][1] is act, 'action', w, 'the own action', 'the function evaluates %s' % show(v[2][1])[:150])
        elif v[2][0] in ('ext', 'popped'):
            rep.viol('action', w, 'the value pushed is not the action')
        else:
            rep.und('action', w, 'value %s' % v[2][0])

    def loop(self, it):
        rep, w = self.rep, self.w
        S = self.syms
        n = length(S)
        if it.count is not n:
            if it.count is not None and lin_of(it.count, n):
                rep.viol('pops', w, 'values are taken %s times for %s symbols' % (show(it.count), show(n)))
            else:
                rep.und('pops', w, 'repeated %s times' % show(it.count)[:150])
            return
        want = sub(sub(n, it.iv), INT(1))
        taken, odd = [], []
        for f, ps in it.alts:
            env = dict(self.env)
            idx = set()
            terms = [a for a, v in f if a.op not in ('gt0', 'eq0', 'fits')]
            for q in walk_nodes(ps):
                if isinstance(q, (Hole, Unk)):
                    terms.append(q.term)
            for t in terms:
                for x in subterms(t):
                    if x.op == 'elem' and x.a[0] is S:
                        idx.add(x.a[1])
            if any(x is not want for x in idx):
                bad = [x for x in idx if x is not want][0]
                if linear(bad, (n, it.iv)):
                    rep.viol('which symbol', w, 'the value taken at step %s is treated as that of symbol %s, it is that of symbol %s' % (show(it.iv), show(bad), show(want)))
                else:
                    rep.und('which symbol', w, show(bad)[:150])
                continue
            pops, binds = [], []
            npush = len(self.pushed)
            self.drops = []
            for q in split(flat(ps), ';'):
                if isinstance(q, Lst):
                    raise Odd('list inside the statements of a symbol')
                self.stmt(q, pops, binds)
            self.env = env
            if len(self.pushed) != npush:
                rep.viol('push', w, 'a value is pushed for every symbol')
                continue
            taken.append((f, len(pops), self.drops))
            if self.drops:
                continue
            if len(pops) != 1:
                odd.append((len(pops), f))
                continue
            rep.ok('pops', w, 'one value per symbol')
            e = mk('elem', S, want)
            self.bind(e, f, binds, pops)
        for k, f in odd:
            if any(ds for _, _, ds in taken):
                rep.und('pops', w, '%d values are taken for a symbol, many for another' % k)
            else:
                rep.viol('pops', w, '%d values are taken for a symbol (%s)' % (k, c06.showf(f)))
        for f, k, ds in taken:
            if ds:
                self.drop(it, n, f, k, ds, taken)

    def drop(self, it, n, facts, k, ds, taken):
        """A step that takes many values at once: what is taken for a right-hand side of which no symbol is named."""
        rep, w = self.rep, self.w
        named = lambda f: any(a.op == 'discr' and v == frozenset(['Some']) and ufld(a.a[0], 'binder') is not None and a.a[0].a[0] is mk('elem', self.syms, sub(sub(n, it.iv), INT(1))) for a, v in f)
        fixed = {a: v for a, v in facts if not any(x is it.iv or x.op in ('phi', 'lv', 'seqlv') for x in subterms(a)) and a.op == 'gt0'}
        first = any(a.op == 'gt0' and a.a[0].op == 'len' and a.a[0].a[0].op not in ('field', 'elem') and v is False for a, v in facts)
        others = [f for f, kk, dd in taken if f is not facts and (kk or dd) and not named(f)
                  and not any(a in fixed and fixed[a] != v for a, v in f)]
        total = INT(k)
        for d in ds:
            total = add(total, d)
        if first and not others and linear(total, (n,)) and total is not n:
            rep.viol('pops', w, '%s values are taken for %s symbols (%s)' % (show(total), show(n), c06.showf(facts)))
        else:
            rep.und('pops', w, '%s values are taken at once' % show(total))

    def bind(self, e, facts, binds, pops):
        rep, w = self.rep, self.w
        I = self.M.E.I
        k = [x for x in self.M.P.adts if x.split('::')[-1] == 'BoundSymbol'][0]
        fi = self.M.P.field_index
        binder = I.field(e, k, '', fi(k, '', 'binder'), 'binder')
        symbol = I.field(e, k, '', fi(k, '', 'symbol'), 'symbol')
        d = {a: v for a, v in facts}
        bk = d.get(mk('discr', binder))
        if not binds:
            if bk == frozenset(['None']):
                rep.ok('binding', w, 'unnamed symbol: value dropped')
            elif bk is None or 'Some' in bk:
                rep.viol('binding', w, 'a named symbol is not bound (%s)' % c06.showf(facts))
            return
        if bk == frozenset(['None']):
            rep.und('binding', w, 'binding for an unnamed symbol')
            return
        if len(binds) > 1:
            rep.und('binding', w, '%d bindings' % len(binds))
            return
        n, mut, v = binds[0]
        okname = n.op == 'disp' and ufld(n.a[0], 'name') is not None and some_of(ufld(n.a[0], 'name')) is binder
        if not okname:
            rep.viol('binding', w, 'the binding is named %s' % show(n)[:200])
            return
        ma = [(a, x) for a, x in facts if ufld(a, 'mutable') is not None and some_of(ufld(a, 'mutable')) is binder]
        if ma and ma[0][1] in (True, False):
            rep.check(ma[0][1] == mut, 'mutability', w, 'mut exactly as declared', 'a binding declared %s is emitted %s' % ('mut' if ma[0][1] else 'without mut', 'mut' if mut else 'without mut'))
        else:
            rep.viol('mutability', w, 'the declared mutability is ignored')
        if v[0] in ('tuple', 'look', 'val', 'lit'):
            rep.viol('binding', w, 'a named symbol is bound to %s, not to its value (%s)' % (
                {'tuple': 'a constant', 'lit': 'a constant', 'look': 'what is on top of the stack', 'val': show(v[1])[:60] if len(v) > 1 and hasattr(v[1], 'op') else 'something'}[v[0]], c06.showf(facts)))
            return
        if v[0] != 'ext':
            rep.und('binding', w, 'bound to a %s' % v[0])
            return
        sk = d.get(mk('discr', symbol))
        if sk is None or len(sk) != 1:
            rep.und('extraction', w, 'for %s' % (sk,))
            return
        sk = list(sk)[0]
        pay = I.field(symbol, self.symadt(), sk, 0, '0')
        if sk == 'Terminal':
            x = self.W.number(v[1], self.W.tok_meth)
            if x is None:
                if self.W.number(v[1], self.W.nt_meth) is not None:
                    rep.viol('extraction', w, 'the value of a token is taken out with %s' % show(v[1])[:150])
                else:
                    rep.und('extraction', w, 'method %s' % show(v[1])[:150])
            else:
                rep.check(x is pay, 'extraction', w, 'token: method of that token', 'the value of token %s is taken out with number %s' % (show(pay)[-60:], show(x)[:150]))
        else:
            x = self.W.number(v[1], self.W.nt_meth)
            if x is None:
                if self.W.number(v[1], self.W.tok_meth) is not None:
                    rep.viol('extraction', w, 'the value of a non-terminal is taken out with %s' % show(v[1])[:150])
                else:
                    rep.und('extraction', w, 'method %s' % show(v[1])[:150])
            else:
                r = self.W.nt_number(x, pay)
                if r is None:
                    rep.und('extraction', w, 'number %s' % show(x)[:150])
                else:
                    rep.check(r, 'extraction', w, 'non-terminal: method of that non-terminal', 'the value of non-terminal %s is taken out with number %s' % (show(pay)[-60:], show(x)[:150]))

    def symadt(self):
        k = [x for x, a in self.M.P.adts.items() if not x.startswith('ast::') and a.get('local') and {v['name'] for v in a['variants']} == {'Terminal', 'NonTerminal'}]
        if len(k) != 1:
            raise Undecided('symbol type')
        return k[0]


def lin_of(t, n):
    c, d = lin(t)
    return all(k is n for k in d)


def linear(t, atoms):
    c, d = lin(t)
    return all(k in atoms for k in d)


def check(ctx, rep, tier):
    E = Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    rep.note('emitted templates', len(E.rets))
    for R in E.rets:
        M = Model(E, R, rep)
        M.origin()
        M.numbering()
        W = Wrap(M, R, rep)
        hit = c06.action_order(M, R, rep)
        if not hit:
            rep.und('action functions', M.where, 'not identified')
            continue
        for f, a, b, _ in hit:
            F = Fn(W, f, a.iv, b.iv, rep)
            try:
                F.run()
            except Odd as e:
                rep.und('action function', F.w, str(e)[:200])
    L = lowering.Lower(ctx, rep)
    L.productions(False)
    L.symbols()
    rep.assumptions.append('the emitted text is the value quote! builds from its template (models of quote and the token types)')
    rep.assumptions.append('the parser runs the action of the production reduced on the value stack: C06, C07; wrappers: C18')
