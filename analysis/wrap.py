"""The wrapper type of the values on the stack: its variants, how they are numbered, and the methods that take values out."""
from shape import *
from code import *
from base import lossy


def canon(t, env):
    """Term with the loops of env replaced by their canonical numbers; loops bound inside are renumbered."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(canon(x, env) for x in t)
        if isinstance(t, frozenset):
            return frozenset(canon(x, env) for x in t)
        return t
    if t.op in ('iv', 'lv', 'seqlv'):
        if t.a[0] in env:
            return (t.op, env[t.a[0]]) if t.op == 'iv' else (t.op, env[t.a[0]], repr(t.a[1:]) if t.op == 'lv' else '')
        return t
    if t.op == 'seqrep':
        e2 = dict(env)
        e2[t.a[0]] = 'b%d' % len(env)
        alts = frozenset((cfacts(f, e2), canon(ps, e2)) for f, ps in t.a[2])
        return ('seqrep', e2[t.a[0]], canon(t.a[1], env), alts, canon(t.a[3], env))
    if not any(x.op in ('iv', 'lv', 'seqlv', 'seqrep') for x in subterms(t)):
        return t
    return (t.op,) + tuple(canon(x, env) for x in t.a)


def cfacts(f, env):
    return frozenset((canon(a, env), v) for a, v in f if a.op not in ('gt0', 'eq0', 'fits'))


def cnodes(nodes, env=None):
    """Canonical form of a node list."""
    env = env or {}
    out = []
    for n in flat(nodes):
        if isinstance(n, Tok):
            out.append(('t', n.text))
        elif isinstance(n, Hole):
            t = nm(n)
            out.append(('t', t.a[0]) if t is not None and t.op == 'str' and n.term.op == 'ident' else ('h', canon(n.term, env)))
        elif isinstance(n, Unk):
            out.append(('u', canon(n.term, env)))
        elif isinstance(n, Grp):
            out.append(('g', n.delim, cnodes(n.parts, env)))
        else:
            its = []
            for i in n.items:
                e2 = env
                if i.iv is not None:
                    e2 = dict(env)
                    e2[i.iv.a[0]] = len(env)
                its.append((i.iv is not None, canon(i.count, env) if i.count is not None else None,
                            frozenset((cfacts(f, e2), cnodes(ps, e2)) for f, ps in i.alts)))
            out.append(('l', n.sep, tuple(its)))
    return tuple(out)


def strip_trail(c):
    """A canonical list without its trailing separator."""
    while c and c[-1] == ('t', ','):
        c = c[:-1]
    return c


class Wrap(object):
    def __init__(self, M, R, rep, whole=None):
        self.M, self.R, self.rep = M, R, rep
        P = M.P
        self.tokadt = [k for k in P.adts if k.split('::')[-1] == 'TokenEnum']
        if len(self.tokadt) != 1:
            raise Undecided('token enum type not found')
        self.conv = self.find_conv()
        self.n_conv = length(self.conv)
        self.enum = None
        for c in R.find('enum'):
            if c.body is None:
                continue
            vs = self.variants(c)
            if vs and any(l[0][0].count in (M.n_nts, self.n_conv) for l, f, n, g in vs if l):
                if self.enum is not None:
                    raise Undecided('two wrapper types')
                self.enum, self.vs = c, vs
        if self.enum is None:
            raise Undecided('no emitted enum with a variant per token or non-terminal')
        self.type = self.enum.name
        self.w = '%s enum %s' % (M.where, show(self.type))
        for i, x in gone(M.E, flat(self.enum.body.parts)) if whole else ():
            rep.viol(whole, self.w, 'a value has no wrapper when %s' % x)
        self.tok = [(l[0][0], f, n, g) for l, f, n, g in self.vs if len(l) == 1 and l[0][0].count is self.n_conv]
        self.nt = [(l[0][0], f, n, g) for l, f, n, g in self.vs if len(l) == 1 and l[0][0].count is M.n_nts]
        if len(self.tok) + len(self.nt) != len(self.vs) or not self.tok or not self.nt:
            raise Undecided('variants of %s' % show(self.type))
        self.methods = [f for f in R.find('fn') if f.owner is not None and f.owner.name is self.type]
        self.tokm = [f for f in self.methods if len(f.loops()) == 1 and f.loops()[0][0].count is self.n_conv]
        self.ntm = [f for f in self.methods if len(f.loops()) == 1 and f.loops()[0][0].count is M.n_nts]
        self.tok_name = self.names([n for _, _, n, _ in self.tok])
        self.nt_name = self.names([n for _, _, n, _ in self.nt])
        self.tok_meth = self.names([f.name for f in self.tokm])
        self.nt_meth = self.names([f.name for f in self.ntm])
        self.seen_V = {}

    def find_conv(self):
        """tokens.conversions, the declarations of the tokens"""
        k = self.tokadt[0]
        j = self.M.P.field_index(k, '', 'conversions')
        I = self.M.E.I
        for r in walk_nodes(self.R.nodes):
            if isinstance(r, Lst):
                for i in r.items:
                    if i.count is not None and i.count.op == 'len':
                        t = i.count.a[0]
                        if t.op == 'field' and str(t.a[3]) == 'conversions' and t.a[1] == k:
                            return t
        raise Undecided('token declarations not iterated')

    def variants(self, c):
        cs, n = cells(flat(c.body.parts), 'enum')
        out = []
        for loops, facts, off, ps in cs:
            ps = flat(ps)
            if not ps:
                continue
            k = 0
            while k + 1 < len(ps) and istok(ps[k], '#'):
                k += 2
            name = nm(ps[k]) if k < len(ps) else None
            if name is None or len(ps) > k + 2 or (len(ps) == k + 2 and not isinstance(ps[k + 1], Grp)):
                return []
            out.append((loops, facts, name, ps[k + 1] if len(ps) == k + 2 else None))
        return out

    def names(self, ns):
        """(prefix, suffix) shared by numbered names."""
        r = {(x[0], x[2]) if x else None for x in map(numbered, ns)}
        if len(r) != 1 or None in r:
            return None
        return r.pop()

    def number(self, name, what):
        """Number in a name formed like the names `what`, None when formed differently."""
        x = numbered(name)
        if x is None or what is None or (x[0], x[2]) != what:
            return None
        return x[1]

    def tok_number(self, i):
        """Number of the wrapper of token i."""
        r = {subst(numbered(n)[1], {it.iv: i}) if numbered(n) else None for it, f, n, g in self.tok}
        return r.pop() if len(r) == 1 else None

    # -- which number a non-terminal has -------------------------------------------------------------
    def nt_number(self, x, nt):
        """Is x the wrapper number of non-terminal nt?  True / False / None."""
        if self.identity():
            return x is nt
        if x.op == 'elem' and x.a[0].op == 'seqrep':
            self.seen_V.setdefault(x.a[0], None)
            return x.a[1] is nt
        if not lin(sub(x, nt))[1] or lossy(x, (nt,)):
            return False
        return None

    def identity(self):
        """Every non-terminal has a variant of its own, numbered by its index."""
        return all(numbered(n)[1] is i.iv and (len(i.alts) == 1 or not cfacts(f, {})) for i, f, n, g in self.nt)


def take_apart(W, f):
    """(wrapper name, pattern parts, result nodes) of an extraction method."""
    import pats
    s, arms = pats.match_arms(f.body)
    hit = []
    for it, facts, pat, body in arms:
        p = flat(pat)
        names = [x for x in p if nm(x) is not None]
        g = p[-1] if p and isinstance(p[-1], Grp) and p[-1].delim == 'Parenthesis' else None
        if g is not None and len(names) >= 2 and (nm(names[-2]) is W.type or text(names[-2]) == 'Self'):
            hit.append((nm(names[-1]), g, body))
        elif len(p) == 1 and (is_(p[0], '_') or text(p[0])):
            b = flat(body)
            if not (b and text(b[0]) in ('unreachable', 'panic', 'todo', 'unimplemented')):
                raise Odd('other wrappers: %s' % repr(b)[:80])
        else:
            raise Odd('arm %s' % repr(p)[:80])
    if len(hit) != 1:
        raise Odd('%d wrappers taken apart' % len(hit))
    return hit[0]


def methods(W, rep):
    """Every extraction method takes apart the wrapper with its own number and returns its parts in order."""
    for f in W.tokm + W.ntm:
        tok = f in W.tokm
        what, mn = (W.tok_name, W.tok_meth) if tok else (W.nt_name, W.nt_meth)
        w = '%s fn %s' % (W.M.where, show(f.name))
        try:
            name, g, body = take_apart(W, f)
        except Odd as e:
            rep.und('extraction method', w, str(e)[:150])
            continue
        x, y = W.number(name, what), numbered(f.name)
        if x is None or y is None:
            if y is not None and lossy(y[1], (f.loops()[0][0].iv,)):
                rep.viol('extraction method', w, 'different wrappers have an extraction method of the same name: %s' % show(f.name)[:100])
            elif W.number(name, W.nt_name if tok else W.tok_name) is not None:
                rep.viol('extraction method', w, 'takes apart %s' % show(name)[:100])
            else:
                rep.und('extraction method', w, 'takes apart %s' % show(name)[:100])
            continue
        it = f.loops()[0][0]
        if tok:
            # method of token k and wrapper of token k
            a = W.tok_number(it.iv)
            ok = a is not None and x is a and y[1] is it.iv
        else:
            vs = [(i, n) for i, ff, n, _ in W.nt if i.iv is it.iv]
            ok = y[1] is x if not vs else any(numbered(n)[1] is x for i, n in vs) and y[1] is x
            if not ok and not lin(sub(x, y[1]))[1]:
                pass
            elif not ok:
                rep.und('extraction method', w, 'numbers %s, %s' % (show(x)[:60], show(y[1])[:60]))
                continue
        rep.check(ok, 'extraction method', w, 'takes apart the wrapper of the same number', 'method %s takes apart wrapper %s' % (show(f.name)[:80], show(name)[:80]))
        # parts in order
        b = flat(body)
        while len(b) == 1 and isinstance(b[0], Grp) and b[0].delim == 'Brace':
            b = flat(b[0].parts)
        a = strip_trail(cnodes(g.parts))
        r = strip_trail(cnodes(b[0].parts)) if len(b) == 1 and isinstance(b[0], Grp) and b[0].delim == 'Parenthesis' else strip_trail(cnodes(b))
        a, r = drop_empty(a), drop_empty(r)
        if a == r:
            rep.ok('extracted parts', w, 'parts returned in the order they were put in')
        elif all(isinstance(z, tuple) and z[0] in ('l', 'h', 't') for z in a + r):
            rep.viol('extracted parts', w, 'the parts are bound as %s and returned as %s' % (repr(g.parts)[:120], repr(b)[:120]))
        else:
            rep.und('extracted parts', w, repr(b)[:120])


def drop_empty(c):
    """Lists whose elements are all empty, and separators, do not matter here."""
    out = []
    for z in c:
        if z[0] == 'l':
            z = ('l', None, z[2])
            if all(all(not ps for f, ps in i[2]) for i in z[2]):
                continue
        out.append(z)
    return tuple(out)
