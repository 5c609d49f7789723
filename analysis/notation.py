"""How the text of a grammar becomes the parsed grammar.  For every parse function, each way to accept is a path of the event graph with the
pieces of text consumed on it and the value returned; the value, written out again, has to give exactly these pieces."""
from base import *
from code import Odd

PARSE = 'syn::parse::Parse'
NOISE = ('Comma', 'Semi')
# parsing one of these consumes nothing when it fails
ATOMIC = ('proc_macro2::Ident', 'syn::Ident', 'syn::ident::Ident', 'syn::Lifetime', 'syn::lifetime::Lifetime', 'braces', 'parens', 'brackets')
RETYPED = {'syn::Ident': 'proc_macro2::Ident', 'syn::ident::Ident': 'proc_macro2::Ident'}


def last(ty):
    return ty.split('::')[-1]


def token(ty):
    return last(ty) if ty.startswith('syn::token::') else None


class Trace(object):
    """What is consumed on a path: per buffer, the pieces in order."""

    def __init__(self):
        self.bufs = {}
        self.main = []
        self.failed = []       # (type, buffer) of failed attempts

    def at(self, b):
        return self.bufs.setdefault(b, [])


class Text(object):
    def __init__(self, ctx, ty, rep):
        self.ctx, self.ty, self.rep, self.P = ctx, ty, rep, ctx.P
        k = self.P.impls.get((PARSE, ty, 'parse'))
        if k is None or k not in self.P.bodies:
            raise Undecided('no parse function for %s' % ty)
        self.key = k
        self.I = ctx.run(k)
        self.G = Graph(self.I)
        self.inp = self.I.params[0]
        self.w = '%s (%s)' % (k, last(ty))
        self.nodes = 0

    # -- paths -------------------------------------------------------------------------------------
    def walks(self, start, L=None):
        """Node lists from start to a ret or panic (L None), or to the next header of L.  A loop on the way is entered and left in one
        iteration; its full iterations are looked at by themselves."""
        out = []
        work = [[start]]
        while work:
            c = work.pop()
            n = c[-1]
            if n.kind in ('ret', 'panic'):
                out.append(c)
            else:
                for m in {m.id: m for m in n.succ}.values():
                    if m.kind == 'hdr' and m.data[0] == L:
                        out.append(c + [m])
                        continue
                    if m in c:
                        continue
                    if m.kind == 'hdr' and m.data[0] != L:
                        hs = [i for i, x in enumerate(c) if x.kind == 'hdr' and x.data[0] == m.data[0]]
                        if hs:
                            # another header of a loop under way: its earlier iterations are full ones
                            if [x for x in c[hs[0]:] if x is m]:
                                continue
                            inside = all(m.data[0] in x.loops for x in c[hs[0]:])
                            if inside and not self.acyclic(m.data[0]):
                                work.append(c[:hs[0]] + [m])
                                continue
                    work.append(c + [m])
            if len(out) + len(work) > 20000:
                raise Undecided('%s: too many paths' % self.w)
        # the same path may have been reached over several headers
        seen, res = set(), []
        for c in out:
            k = tuple(x.id for x in c)
            if k not in seen:
                seen.add(k)
                res.append(c)
        return res

    def acyclic(self, L):
        """No two different headers of L reach each other: going from one to the other happens once."""
        if not hasattr(self, '_ac'):
            self._ac = {}
        if L not in self._ac:
            hs = self.G.hdrs.get(L, [])
            nxt = {h.id: [o for o in hs if o is not h and path(h, lambda m: m is o, lambda m: m.kind == 'exit' and m.data[0] == L)] for h in hs}
            self._ac[L] = not any(h in nxt[o.id] for h in hs for o in nxt[h.id])
        return self._ac[L]

    def full_walks(self, L, h=None):
        """Full iterations that can happen any number of times (from header h)."""
        ws = self.back_walks(L)
        if self.acyclic(L):
            ws = [c for c in ws if c[-1] is c[0]]
        return [c for c in ws if h is None or c[0] is h]

    def facts(self, c, extra=None):
        f = {}
        for n in c:
            f.update(n.facts)
            if n.kind == 'cond':
                f[n.data[0]] = n.data[1]
        f.update(extra or {})
        return f

    def possible(self, c):
        seen = {}
        for n in c:
            if n.kind == 'cond':
                v = n.data[1]
                w = seen.get(n.data[0])
                if isinstance(v, frozenset) and isinstance(w, frozenset):
                    v = v & w
                    if not v:
                        return False
                elif w is not None and w != v:
                    return False
                seen[n.data[0]] = v
        return True

    def trace(self, c):
        t = Trace()
        skip = {}
        for i, n in enumerate(c):
            # a step from one header of a loop to another, seen as a piece of its own when it adds to a sequence
            if n.kind == 'hdr' and self.acyclic(n.data[0]):
                js = [j for j in range(i + 1, len(c)) if c[j].kind == 'hdr' and c[j].data[0] == n.data[0]]
                if js and not (i == 0 and js[0] == len(c) - 1):
                    seg = c[i:js[0] + 1]
                    bs = self.back_state(n.data[0], seg)
                    if not bs:
                        raise Odd('step not found')
                    if any(v for s, H, tgt, d in bs for v in d.values()):
                        skip[i] = (js[0], seg, bs)
        until = -1
        for i, n in enumerate(c):
            if i in skip and i > until:
                until, seg, bs = skip[i]
                t2 = self.trace(seg)
                t.failed += t2.failed
                self.enter(t, n, c)
                for b in t2.bufs:
                    t.at(b)
                    if t2.at(b) and not self.opened(b, seg):
                        t.at(b).append(('X', n.data[0], b, n, t2, seg, bs))
                    elif t2.at(b):
                        t.bufs[b] = t2.at(b)
                continue
            if i < until:
                continue
            if n.kind == 'parse':
                b, ty, ver, kind = n.data
                if self.real(b):
                    if kind == 'group':
                        t.at(b).append(('G', ty, mk('buf', ty, b, ver), n))
                        t.at(mk('buf', ty, b, ver))
                    elif token(ty) in NOISE:
                        pass
                    else:
                        t.at(b).append(('T', RETYPED.get(ty, ty), mk('parsed', ty, b, ver, kind), n))
            elif n.kind == 'hdr':
                self.enter(t, n, c)
            elif n.kind == 'cond' and n.data[0].op == 'parses' and n.data[1] is False:
                t.failed.append((n.data[0].a[0], n.data[0].a[1], n))
            elif n.kind in ('call', 'icall'):
                for a in n.data[1]:
                    if isinstance(a, T) and any(x is self.inp or x.op == 'buf' for x in walk(a)) and a.op in ('param', 'buf', 'ptr'):
                        raise Odd('the input is given to %s' % str(n.data[0])[:80])
        return t

    def enter(self, t, n, c):
        if n is c[0] or n is c[-1]:
            return
        L = n.data[0]
        for b in self.consumed_in(L, n if self.acyclic(L) else None):
            t.at(b).append(('L', L, None, n))

    def opened(self, b, seg):
        return any(n.kind == 'parse' and n.data[3] == 'group' and mk('buf', n.data[1], n.data[0], n.data[2]) is b for n in seg)

    def real(self, b):
        return b is self.inp or b.op == 'buf' and self.real(b.a[1])

    def consumed_in(self, L, h=None):
        """Buffers from which a full iteration of L (from header h) takes something."""
        out = []
        for c in self.full_walks(L, h):
            for n in c:
                if n.kind == 'parse' and self.real(n.data[0]) and token(n.data[1]) not in NOISE and n.data[0] not in out:
                    out.append(n.data[0])
        return [b for b in out if not (b.op == 'buf' and self.opened_in(b, L))]

    def opened_in(self, b, L):
        return any(n.kind == 'parse' and n.data[3] == 'group' and mk('buf', n.data[1], n.data[0], n.data[2]) is b and L in n.loops for n in self.G.nodes)

    def back_walks(self, L):
        if not hasattr(self, '_bw'):
            self._bw = {}
        if L not in self._bw:
            out = []
            for h in self.G.hdrs.get(L, []):
                out += [c for c in self.walks(h, L) if c[-1].kind == 'hdr' and self.possible(c)]
            self._bw[L] = out
        return self._bw[L]

    def back_state(self, L, c):
        """(state, changes) at the end of a full iteration."""
        r = [(s, H, tgt, d) for s, H, tgt, d in self.I.loopinfo[L]['backs'] if s.node is c[-2] or s.node.id == c[-2].id]
        r = [x for x in r if x[2].node is c[-1] or x[2].node.id == c[-1].id] or r
        return r

    # -- what a value says --------------------------------------------------------------------------------
    def bool_(self, v, facts):
        if v.op == 'bool':
            return v.a[0]
        f = facts.get(v)
        if isinstance(f, bool):
            return f
        if v.op == 'not':
            r = self.bool_(v.a[0], facts)
            return None if r is None else not r
        if v.op == 'peek':
            # decided by what is read next
            nx = [n for n in self.G.kind('parse') if n.data[0] is v.a[1] and n.data[2] == v.a[2] and facts.get(mk('parses', n.data[1], n.data[0], n.data[2])) is True]
            if len({n.data[1] for n in nx}) == 1:
                if nx[0].data[1] == v.a[0]:
                    return True
                if token(v.a[0]) and (token(nx[0].data[1]) or RETYPED.get(nx[0].data[1], nx[0].data[1]) == 'proc_macro2::Ident'):
                    return False
        if v.op in ('gt0', 'eq0') and any(x.op == 'len' for x in walk(v)) and any(x.op in ('seqrep', 'parsed') for x in walk(v)):
            raise Bad('a mark is kept that depends on %s' % show(v)[:80])
        return None

    def open(self, v):
        while v.op in ('box', 'deref', 'clone'):
            v = v.a[0]
        return v

    def fields(self, v):
        d = self.P.adts[v.a[0]]
        vs = [x for x in d['variants'] if x['name'] == v.a[1]] or d['variants']
        return {f['name']: v.a[2][j] for j, f in enumerate(vs[0]['fields'])}

    def agg(self, v, ty):
        if not (v.op == 'agg' and v.a[0] == ty):
            raise Odd('%s: value %s' % (last(ty), show(v)[:120]))
        return v.a[1], self.fields(v)

    def write(self, ty, v, facts):
        """The pieces of text a value of the type stands for."""
        v = self.open(v)
        if getattr(self, 'hide', None) is v:
            return [('H',)]
        if ty is None:
            return [('V', None, v)]
        if ty not in WRITERS or v.op == 'parsed' or v.op == 'elem' and v.a[0].op == 'parsed' and str(v.a[0].a[0]).split(',')[0] == ty:
            return [('V', ty, v)]
        if v.op == 'lv' and self.init(v) is not None:
            L, leaf, init = self.init(v)
            return self.write(ty, init, facts) + [('A', L, leaf, v, ty)]
        if ty in WRITERS:
            return WRITERS[ty](self, v, facts)
        raise Odd(ty)

    def init(self, v):
        L = v.a[0]
        for h, li in self.I.hdrinfo.items():
            for leaf, (k, init, sym) in li['leaves'].items():
                if sym is v:
                    return L, leaf, init
        return None

    def seq(self, ty, v, facts):
        out = []
        if v.op == 'parsed':
            return [('V', ty + ',', v)]
        for k, x in parts(v):
            if k == 'e':
                out += self.write(ty, x, facts)
            elif x.op == 'seqrep' and x.a[1] is EMPTY:
                p = self.punctuated(x)
                if p is not None:
                    out.append(('V', ty + ',', p))
                else:
                    out.append(('R', x.a[0], x, ty))
            elif x.op == 'parsed':
                out.append(('V', ty + ',', x))
            elif x.op in ('rev', 'perm') and any(y.op in ('seqrep', 'parsed') for y in walk(x)):
                raise Bad('what is read is kept in another order')
            elif x.op == 'slice' and any(y.op in ('seqrep', 'parsed') for y in walk(x)):
                raise Bad('not all that is read is kept')
            else:
                raise Odd('sequence %s' % show(x)[:120])
        return out

    def punctuated(self, x):
        from shape import one_rep
        r = one_rep(x)
        if r is None:
            return None
        L, n, e = r
        if e.op == 'elem' and e.a[0].op == 'parsed' and e.a[1].op == 'iv':
            if n is length(e.a[0]):
                return e.a[0]
            raise Bad('%s of %s are kept' % (show(n)[:60], show(length(e.a[0]))[:80]))
        if e.op == 'elem' and e.a[0].op == 'parsed':
            raise Bad('the parts of a list are put in the order %s' % show(e.a[1])[:60])
        return None

    # -- comparison ------------------------------------------------------------------------------------------
    def match(self, tr, b, items, facts, cur=None):
        """The pieces consumed from b are the items; None, or what differs."""
        got = list(tr.at(b))
        i = 0
        for it in items:
            k = it[0]
            g = got[i] if i < len(got) else None
            if k == 'K':
                if g is None or g[0] != 'T' or token(g[1]) != it[1]:
                    raise Bad('`%s` is represented although %s was read' % (it[1], self.name(g)))
                i += 1
            elif k == 'V':
                if g is None or g[0] != 'T':
                    raise Bad('%s is represented although %s was read' % (self.vname(it), self.name(g)))
                self.value(it[1], it[2], g[1], g[2], facts)
                i += 1
            elif k == 'G':
                if g is None or g[0] != 'G' or g[1] != it[1]:
                    raise Bad('a group in %s is represented although %s was read' % (it[1], self.name(g)))
                self.match(tr, g[2], it[2], facts)
                i += 1
            elif k == 'O':
                # optional brackets around something possibly empty
                if g is not None and g[0] == 'T' and token(g[1]) == it[1]:
                    sub_ = list(it[2]) + [('K', it[3])]
                    rest = items[items.index(it) + 1:]
                    t2 = Trace()
                    t2.bufs = dict(tr.bufs)
                    t2.bufs[b] = got[i + 1:]
                    return self.match(t2, b, sub_ + list(rest), facts)
                if it[2] and not all(x[0] == 'R' and False for x in it[2]):
                    raise Bad('something is represented although nothing was read')
            elif k == 'R':
                L, x, ty = it[1:]
                k0 = i
                while i < len(got) and got[i][0] in ('L', 'X') and got[i][1] == L:
                    if got[i][0] == 'X':
                        self.step(got[i], x, ty, b)
                    i += 1
                if i == k0 and any(d_ for c in self.full_walks(L) for s_, H, tgt, d in self.back_state(L, c) for d_ in d.values()):
                    raise Bad('a sequence is represented although %s was read' % self.name(g))
                self.iterations(L, x, ty, b)
            elif k == 'A':
                L, leaf, sym, ty = it[1:]
                if g is not None and g[0] == 'L' and g[1] == L:
                    i += 1
                    self.wrapped(L, leaf, sym, ty, b)
                else:
                    self.wrapped(L, leaf, sym, ty, b)
            elif k == 'B':
                # in braces, or without
                if g is not None and g[0] == 'G' and g[1] == it[1]:
                    self.match(tr, g[2], it[2], facts)
                    i += 1
                else:
                    j = items.index(it)
                    t2 = Trace()
                    t2.bufs = dict(tr.bufs)
                    t2.bufs[b] = got[i:]
                    return self.match(t2, b, list(it[2]) + list(items[j + 1:]), facts)
            elif k == 'N':
                if g is None or g[0] != 'T' or g[1] != 'proc_macro2::Ident':
                    raise Bad('the word %s is represented although %s was read' % (it[1], self.name(g)))
                self.word(g[2], it[1], facts)
                i += 1
        if i < len(got):
            raise Bad('%s was read but is not represented' % self.name(got[i]))

    def step(self, g, x, ty, b):
        """One step between headers that adds to the sequence."""
        alts = {p for f, p in x.a[2]}
        L, t2, seg, bs = g[1], g[4], g[5], g[6]
        for s, H, tgt, d in bs:
            ds = {tuple(v) for v in d.values() if tuple(v) in alts}
            if len(ds) != 1:
                raise Odd('elements added in a step')
            items = []
            facts = self.facts(seg, s.facts)
            for k, y in list(ds)[0]:
                if k != 'e':
                    raise Odd('nested sequence')
                items += self.write(ty, y, facts)
            self.match(t2, b, items, facts)

    def iterations(self, L, x, ty, b):
        alts = {p for f, p in x.a[2]}
        for c in self.full_walks(L):
            tr = self.trace(c)
            bs = self.back_state(L, c)
            if not bs:
                raise Odd('iteration not found')
            for s, H, tgt, d in bs:
                ds = [tuple(v) for leaf, v in d.items() if tuple(v) in alts]
                none = not [1 for leaf, v in d.items() if v]
                facts = self.facts(c, s.facts)
                if not ds and none:
                    items = []
                elif len(set(ds)) == 1:
                    items = []
                    for k, y in ds[0]:
                        if k != 'e':
                            raise Odd('nested sequence')
                        items += self.write(ty, y, facts)
                else:
                    raise Odd('elements added in an iteration')
                self.failures(tr, c)
                self.match(tr, b, items, facts)
                self.nodes += len(c)

    def wrapped(self, L, leaf, sym, ty, b):
        if len(self.full_walks(L)) != len(self.back_walks(L)):
            raise Odd('value carried through several headers')
        for c in self.back_walks(L):
            if not any(n is c[0] for n in self.G.hdrs[L]):
                continue
            tr = self.trace(c)
            for s, H, tgt, d in self.back_state(L, c):
                loc, path_ = leaf
                v = s.mem.get(loc)
                v = self.I.get_leaf(v, path_) if v is not None and path_ else v
                if v is None:
                    raise Odd('value after an iteration')
                h0 = self.I.hdrinfo[c[0].id]
                sy = [y for lf, (k, init, y) in h0['leaves'].items() if lf == leaf]
                # the start of what is written has to be what was there before
                items = self.without(ty, v, sy[0], self.facts(c, s.facts))
                self.failures(tr, c)
                self.match(tr, b, items, self.facts(c, s.facts))
                self.nodes += len(c)

    def without(self, ty, v, sym, facts):
        if v is sym:
            return []
        self.hide = sym
        try:
            items = self.write(ty, v, facts)
        finally:
            self.hide = None
        if not items or items[0] != ('H',):
            raise Bad('what was read before is not kept: %s' % show(v)[:80])
        return items[1:]

    def word(self, t, text, facts):
        """The identifier t is the given word on the path."""
        for f, v in facts.items():
            if any(x is t for x in walk(f)):
                ss = [x.a[0] for x in walk(f) if x.op == 'str']
                if f.op in ('eq', 'seq_eq', 'streq') and v is True and ss == [text]:
                    return
        about = [(f, v) for f, v in facts.items() if any(x is t for x in walk(f))]
        if all(f.op in ('eq', 'seq_eq', 'streq') and v is False and len([x for x in walk(f) if x.op == 'str']) == 1 for f, v in about):
            raise Bad('other words than %s are accepted in its place' % text)
        raise Odd('the word %s is not compared: %s' % (text, [show(f) for f in facts if any(x is t for x in walk(f))][:3]))

    def lost(self, v, term, facts):
        """A part of the piece read that is replaced by nothing where the piece is put together again."""
        for y in walk(v):
            if y.op != 'agg' or not str(y.a[0]).startswith('syn::') or y.a[0] not in self.P.adts:
                continue
            fs = self.fields(y)
            of = {x.a[0] for n, x in fs.items() if x.op == 'field' and x.a[3] == n and contains(x.a[0], term)}
            if len(of) != 1:
                continue
            X = of.pop()
            for n, x in fs.items():
                if x.op == 'agg' and x.a[1] == 'None' and not any(
                        k.op == 'discr' and k.a[0].op == 'field' and k.a[0].a[0] is X and k.a[0].a[3] == n and f == frozenset(['None']) for k, f in facts.items()):
                    return n
        return None

    def value(self, ty, v, gty, term, facts=()):
        facts = dict(facts)
        """The value v of the notation's type ty stands for the piece term of type gty."""
        x = v
        while x is not term:
            if x.op == 'field' and x.a[0].op in ('parsed', 'field') and x.a[3] in ('path',):
                x = x.a[0]
            elif x.op in ('strof', 'disp', 'ident', 'box', 'deref', 'clone'):
                x = x.a[0]
            else:
                break
        if x is not term:
            if x.op == 'strfn' and contains(x, term):
                raise Bad('the text read is changed (%s)' % str(x.a[0]))
            for y in walk(v):
                if y.op == 'upd' and isinstance(y.a[0], str) and contains(y, term) and \
                        y.a[0].split('::')[-1] in ('last_mut', 'first_mut', 'get_mut', 'iter_mut', 'index_mut', 'pop', 'truncate', 'clear', 'take', 'retain', 'remove', 'drain'):
                    raise Bad('the %s read is changed before it is kept (%s)' % (last(gty), y.a[0]))
            g = self.lost(v, term, facts)
            if g:
                raise Bad('the %s of the %s read is not kept' % (g, last(gty)))
            if any(y.op == 'parsed' for y in walk(v)) and v.op in ('parsed', 'field', 'strof', 'elem'):
                raise Bad('the %s read is not the one kept (%s)' % (last(gty), show(v)[:100]))
            raise Odd('value %s of %s' % (show(v)[:100], show(term)[:80]))
        if ty is not None and ty.endswith(','):
            if not gty.startswith(ty):
                raise Odd('%s read as %s' % (ty, gty))

    def name(self, g):
        if g is None:
            return 'nothing more'
        if g[0] == 'L':
            return 'a repetition'
        if g[0] == 'G':
            return 'a group in ' + g[1]
        return '`%s`' % last(g[1]) if token(g[1]) is None else 'the token %s' % token(g[1])

    def vname(self, it):
        return last(it[1]) if it[1] else show(it[2])[:60]

    def failures(self, tr, c):
        """A failed attempt that may have consumed something must not be ignored."""
        for ty, b, n in tr.failed:
            if not self.real(b):
                continue
            if ty in ATOMIC or token(ty) is not None:
                continue
            raise Bad('%s: the text goes on after a failed attempt to read %s, which may have consumed some of it' % (where(n), last(ty)))

    # -- a parse function ------------------------------------------------------------------------------------------
    def run(self):
        rep, w = self.rep, self.w
        entry = [n for n in self.G.nodes if n.kind == 'entry'][0]
        n = 0
        for c in self.walks(entry):
            if not self.possible(c):
                continue
            e = c[-1]
            if e.kind == 'panic':
                continue
            v = e.data[0]
            if v.op == 'agg' and v.a[0] == RESULT and v.a[1] == 'Err':
                rep.ok('refused', w, 'an error is passed on')
                continue
            if not (v.op == 'agg' and v.a[0] == RESULT and v.a[1] == 'Ok'):
                # a result passed on unchanged
                rep.und('text', w, 'returns %s' % show(v)[:120])
                continue
            n += 1
            try:
                tr = self.trace(c)
                self.failures(tr, c)
                facts = self.facts(c)
                items = self.write(self.ty, v.a[2][0], facts)
                self.match(tr, self.inp, items, facts)
                rep.ok('text', w, 'read and kept alike: %s' % self.shape(tr))
            except Bad as b:
                rep.viol('text', w, '%s (%s)' % (b, self.shape(tr)))
            except Odd as o:
                rep.und('text', w, str(o)[:200])
        if not n:
            rep.und('text', w, 'no way to accept found')
        return n

    def shape(self, tr):
        def go(b):
            out = []
            for g in tr.at(b):
                if g[0] == 'G':
                    out.append(g[1] + '(' + go(g[2]) + ')')
                elif g[0] == 'L':
                    out.append('...')
                else:
                    out.append(last(g[1].split(',')[0]) + ('*' if ',' in g[1] else ''))
            return ' '.join(out)
        return go(self.inp)[:100]


class Bad(Exception):
    pass


# ---- the notation ------------------------------------------------------------------------------------------------------
def w_visibility(t, v, facts):
    k, f = t.agg(v, 'ast::Visibility')
    return [('K', 'Pub')] if k == 'Pub' else []


def w_symbol(t, v, facts):
    k, f = t.agg(v, 'ast::Symbol')
    x = t.open(f['0'])
    if k == 'Terminal':
        return [('V', 'syn::LitStr', x)]
    if k == 'NonTerminal':
        return [('V', 'proc_macro2::Ident', x)]
    if k == 'NamedSymbol':
        a, n = t.agg(x, 'ast::Name')
        m = t.bool_(n['mutable'], facts)
        if m is None:
            raise Odd('mutability %s' % show(n['mutable'])[:100])
        return [('K', 'Lt')] + ([('K', 'Mut')] if m else []) + [('V', 'proc_macro2::Ident', n['name']), ('K', 'Colon')] + t.write('ast::Symbol', f['1'], facts) + [('K', 'Gt')]
    if k == 'Repeat':
        a, r = t.agg(x, 'ast::Repeat')
        o, z = t.agg(r['op'], 'ast::RepeatOp')
        return t.write('ast::Symbol', r['symbol'], facts) + [('K', {'Plus': 'Add', 'Star': 'Star', 'Question': 'Question'}[o])]
    raise Odd('symbol %s' % k)


def w_action(t, v, facts):
    k, f = t.agg(v, 'ast::Action')
    return [('K', 'FatArrow')] + ([('K', 'Question')] if k == 'Fallible' else []) + [('V', 'syn::Expr', f['0'])]


def w_production(t, v, facts):
    k, f = t.agg(v, 'ast::Production')
    return t.seq('ast::Symbol', f['symbols'], facts) + t.write('ast::Action', f['action'], facts)


class Either(object):
    def __init__(self, *alts):
        self.alts = alts


def w_nonterminal(t, v, facts):
    k, f = t.agg(v, 'ast::NonTerminal')
    head = t.write('ast::Visibility', f['visibility'], facts) + [('V', 'proc_macro2::Ident', f['name']), ('K', 'Colon'), ('V', 'syn::Type', f['type_decl']), ('K', 'Eq')]
    ps = t.seq('ast::Production', f['productions'], facts)
    return head + [('B', 'braces', ps)]


def w_item(t, v, facts):
    k, f = t.agg(v, 'ast::GrammarItem')
    return t.write('ast::' + k, f['0'], facts)


def w_parser(t, v, facts):
    k, f = t.agg(v, 'ast::Parser')
    return t.seq('ast::GrammarItem', f['items'], facts)


def w_typedef(t, v, facts):
    k, f = t.agg(v, 'ast::TypeDef')
    return [('K', 'Type')] + t.write('ast::TypeDefKind', f['kind'], facts) + [('K', 'Eq'), ('V', 'syn::Type', f['ty'])]


def w_typedefkind(t, v, facts):
    k, f = t.agg(v, 'ast::TypeDefKind')
    return [('N', k)]


def w_tokenenum(t, v, facts):
    k, f = t.agg(v, 'ast::TokenEnum')
    ls = t.seq('syn::Lifetime', f['type_lifetimes'], facts)
    return [('K', 'Enum'), ('V', 'proc_macro2::Ident', f['type_name']), ('O', 'Lt', ls, 'Gt'), ('G', 'braces', t.seq('ast::Conversion', f['conversions'], facts))]


def w_conversion(t, v, facts):
    k, f = t.agg(v, 'ast::Conversion')
    return [('V', 'syn::LitStr', f['from']), ('K', 'FatArrow')] + t.write('ast::Pattern', f['to'], facts)


def w_fieldpattern(t, v, facts):
    k, f = t.agg(v, 'ast::FieldPattern')
    return [('V', 'proc_macro2::Ident', f['field_name']), ('K', 'Colon')] + t.write('ast::Pattern', f['pattern'], facts)


def w_pattern(t, v, facts):
    k, f = t.agg(v, 'ast::Pattern')
    if k == 'Enum':
        return [('V', 'syn::Path', f['0']), ('G', 'parens', t.seq('ast::Pattern', f['1'], facts))]
    if k == 'Struct':
        d = t.bool_(f['2'], facts)
        if d is None:
            raise Odd('rest marker %s' % show(f['2'])[:100])
        return [('V', 'syn::Path', f['0']), ('G', 'braces', t.seq('ast::FieldPattern', f['1'], facts) + ([('K', 'Dot2')] if d else []))]
    if k == 'Tuple':
        return [('G', 'parens', t.seq('ast::Pattern', f['0'], facts))]
    if k == 'Path':
        return [('V', 'syn::Path', f['0'])]
    if k == 'Underscore':
        return [('K', 'Underscore')]
    if k == 'DotDot':
        return [('K', 'Dot2')]
    if k == 'Lit':
        return [('V', 'syn::Lit', f['0'])]
    if k == 'Choose':
        return [('K', 'Lt'), ('V', 'syn::Type', f['0']), ('K', 'Gt')]
    raise Odd('pattern %s' % k)


WRITERS = {'ast::Visibility': w_visibility, 'ast::Symbol': w_symbol, 'ast::Action': w_action, 'ast::Production': w_production,
           'ast::NonTerminal': w_nonterminal, 'ast::GrammarItem': w_item, 'ast::Parser': w_parser, 'ast::TypeDef': w_typedef,
           'ast::TypeDefKind': w_typedefkind, 'ast::TokenEnum': w_tokenenum, 'ast::Conversion': w_conversion,
           'ast::FieldPattern': w_fieldpattern, 'ast::Pattern': w_pattern}
