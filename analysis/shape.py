"""What the emitted code refers to: the grammar, the tables and their cells, as terms."""
import emit
from emit import *
from emit import TABLE, AUTO, FIRST
from tpl import simp_facts


def ufld(t, name, adt=None):
    """t = base.name -> base"""
    if t.op == 'field' and str(t.a[3]) == name and (adt is None or str(t.a[1]).split('::')[-1] == adt):
        return t.a[0]
    return None


def some_of(t):
    """payload of Some -> the option term"""
    if t.op == 'field' and t.a[1] == OPTION and t.a[2] == 'Some':
        return t.a[0]
    return None


class Model(object):
    """Provenance of the table, the automaton and the numbered grammar of one emitted template."""

    def __init__(self, E, R, rep):
        self.E, self.R, self.rep = E, R, rep
        self.P = E.ctx.P
        atoms = E.I.atoms
        tabs = {s for s in R.syms if s.a[0] == TABLE}
        if len(tabs) != 1:
            raise Undecided('%d table constructions' % len(tabs))
        self.table = tabs.pop()
        self.where = E.ctx.body(emit.ROOT).key
        g, au = atoms[self.table][1]
        self.gn = g
        s = au
        while s.op == 'field':
            s = s.a[0]
        if s not in atoms or atoms[s][0] != AUTO:
            raise Undecided('automaton given to the table: %s' % show(au)[:100])
        self.auto = s
        self.g0, self.first = atoms[s][1][:2]
        self.adt = [k for k in self.P.adts if k.split('::')[-1] == 'LRTable'][0]
        self.nts = self.gf(self.g0, 'non_terminals')
        self.terms = self.gf(self.g0, 'terminals')
        self.n_terms = length(self.terms)
        self.n_nts = length(self.nts)
        self.n_states = self.tf('n_states')
        self.action = self.tf('action')
        self.goto = self.tf('goto')

    def idx(self, adt, variant, f):
        k = [x for x in self.P.adts if x.split('::')[-1] == adt and not x.startswith('ast::')]
        k = [(x, self.P.field_index(x, variant, f)) for x in k]
        k = [x for x in k if x[1] is not None]
        if len(k) != 1:
            raise Undecided('field %s.%s not found' % (adt, f))
        return k[0]

    def gfield(self, t, adt, f):
        k, j = self.idx(adt, '', f)
        return self.E.I.field(t, k, '', j, f)

    def gf(self, g, f):
        return self.gfield(g, 'Grammar', f)

    def tf(self, f):
        return self.gfield(self.table, 'LRTable', f)

    def nt(self, i):
        return elem(self.nts, i)

    def prods(self, i):
        return self.gfield(self.nt(i), 'NonTerminal', 'productions')

    def prod(self, i, j):
        return elem(self.prods(i), j)

    def pfield(self, i, j, f):
        return self.gfield(self.prod(i, j), 'Production', f)

    def ntfield(self, i, f):
        return self.gfield(self.nt(i), 'NonTerminal', f)

    # -- the grammar the table is built from is the automaton's grammar with numbered actions
    def origin(self):
        rep, w = self.rep, self.where
        fi = self.E.I.atoms.get(self.first)
        if fi is not None and fi[0] == FIRST:
            rep.check(fi[1] and fi[1][0] is self.g0, 'tables origin', w, 'first table of the same grammar',
                      'the automaton is built with the first table of another grammar')
        else:
            rep.und('tables origin', w, 'first table: %s' % show(self.first)[:100])
        if self.g0.op != 'param':
            rep.und('tables origin', w, 'automaton built from %s' % show(self.g0)[:100])
        if self.gn is self.g0:
            self.number = None
            rep.und('numbering', w, 'actions are not numbered')
            return
        nn = self.gf(self.gn, 'non_terminals')
        nt = self.gf(self.gn, 'terminals')
        rep.check(nt is self.terms, 'numbered grammar', w, 'same terminals', 'terminals differ: %s' % show(nt)[:200])
        self.number = None
        n = one_rep(nn)
        if n is None:
            rep.und('numbered grammar', w, show(nn)[:200])
            return
        L0, trip0, v0 = n
        i0 = mk('iv', L0)
        if trip0 is not self.n_nts:
            rep.und('numbered grammar', w, 'number of non-terminals %s' % show(trip0)[:100])
            return
        ok = True
        for f in ('non_terminal', 'return_ty', 'public'):
            a = self.gfield(v0, 'NonTerminal', f)
            ok &= rep.check(a is self.ntfield(i0, f), 'numbered grammar', w, f + ' kept', '%s of a non-terminal becomes %s' % (f, show(a)[:200]))
        ps = one_rep(self.gfield(v0, 'NonTerminal', 'productions'))
        if ps is None:
            x = self.borrowed(self.gfield(v0, 'NonTerminal', 'productions'), L0)
            if x is not None:
                rep.viol('numbered grammar', w, 'some productions get the number found by searching earlier ones: %s' % show(x)[:100])
                return
            rep.und('numbered grammar', w, 'productions %s' % show(self.gfield(v0, 'NonTerminal', 'productions'))[:200])
            return
        L1, trip1, v1 = ps
        i1 = mk('iv', L1)
        if trip1 is not length(self.prods(i0)):
            rep.und('numbered grammar', w, 'number of productions %s' % show(trip1)[:100])
            return
        sy = self.gfield(v1, 'Production', 'symbols')
        rep.check(sy is self.pfield(i0, i1, 'symbols'), 'numbered grammar', w, 'symbols kept', 'the symbols of a production become %s' % show(sy)[:200])
        self.number = (i0, i1, self.gfield(v1, 'Production', 'action'))

    def borrowed(self, s, L0):
        """One kind of productions gets a fresh number, another the position of something found in what is there already."""
        if s.op != 'seqrep' or s.a[1] is not EMPTY or len(s.a[2]) < 2:
            return None
        ns = set()
        for f, ps in s.a[2]:
            if len(ps) != 1 or ps[0][0] != 'e' or ps[0][1].op != 'agg':
                return None
            ns.add(self.gfield(ps[0][1], 'Production', 'action'))
        fresh = [n for n in ns if any(x.op in ('seqlv', 'lv') for x in walk(n))]
        found = [n for n in ns if n.op == 'iv' and n.a[0] not in (s.a[0], L0) or n.op == 'field' and n.a[2] == 'Some']
        return found[0] if fresh and found else None

    def numbering(self):
        """The number given to production (i, j) is the number of productions before it."""
        rep, w = self.rep, self.where
        if self.number is None:
            return False
        i0, i1, N = self.number
        off, d = lin(N)
        cs = [k for k, v in d.items()]
        info = self.E.I.loopinfo
        if len(cs) == 2 and i1 in d and d[i1] == 1 and off == 0:
            # a counter kept across the outer loop
            c = [k for k in cs if k is not i1][0]
            trip = length(self.prods(i0))
            st = counted(info, c, i0.a[0], trips=(trip, mk('len', trip.a[0]) if trip.op == 'len' else trip))
            if d[c] == 1 and st is not None and st[0] == 'inner' and st[1] is INT(0):
                rep.ok('numbering', w, 'action numbers count the productions in order')
                return True
        if len(cs) != 1 or d[cs[0]] != 1:
            rep.und('numbering', w, show(N)[:200])
            return False
        c = cs[0]
        acc = c.a[0] if c.op == 'len' else c
        L0, L1 = i0.a[0], i1.a[0]
        b = counted(info, acc, L1)
        if b is None:
            rep.und('numbering', w, show(N)[:200])
            return False
        step1, init1 = b
        if init1.op == 'len':
            init1 = init1.a[0]
        b0 = counted(info, init1, L0, inner=(L1, acc)) if init1.op in ('seqlv', 'lv') else None
        if b0 is None or step1 is None:
            rep.und('numbering', w, 'counter of %s' % show(N)[:200])
            return False
        step0, init0 = b0
        zero = init0 is EMPTY or init0 is INT(0)
        rep.check(step1 == 1 and step0 == 'inner' and zero and off == 0, 'numbering', w, 'action numbers count the productions in order',
                  'the number of an action is not the number of productions before it: %s steps %s,%s from %s' % (show(N)[:100], step1, step0, show(init0)[:60]))
        return True


def one_rep(s):
    """(loop, trip, element) of a sequence built by one complete loop with one element per step."""
    if s.op == 'seqrep' and s.a[1] is EMPTY and len(s.a[2]) == 1:
        f, ps = s.a[2][0]
        if len(ps) == 1 and ps[0][0] == 'e' and s.a[3] is not None:
            return s.a[0], s.a[3], ps[0][1]
    if s.op == 'seqrep' and s.a[1] is EMPTY and len(s.a[2]) > 1:
        vs = {ps for f, ps in s.a[2]}
        if len(vs) == 1:
            ps = vs.pop()
            if len(ps) == 1 and ps[0][0] == 'e' and s.a[3] is not None:
                return s.a[0], s.a[3], ps[0][1]
    return None


def counted(info, sym, L, inner=None, trips=()):
    """How a counter (or the length of a vector) carried by loop L changes per step: (step, initial value); step
    is an int, 'inner' (it changes by what the inner loop adds), or None."""
    if sym.op not in ('seqlv', 'lv') or sym.a[0] != L or L not in info:
        return None
    inf = info[L]
    leaf = None
    for lf, (k, init, s) in inf['leaves'].items():
        if s is sym:
            leaf, ini = lf, init
    if leaf is None:
        return None
    steps = set()
    for s, H, tgt, delta in inf['backs']:
        if sym.op == 'seqlv':
            d = delta.get(leaf)
            if d is None:
                steps.add(0)
                continue
            if all(k == 'e' for k, _ in d):
                steps.add(len(d))
            elif inner and len(d) == 1 and d[0][0] == 's' and d[0][1].op == 'seqrep' and d[0][1].a[0] == inner[0]:
                steps.add('inner')
            else:
                steps.add(None)
        else:
            v = s.mem.get(leaf[0])
            cur = None
            try:
                cur = getleaf(s, leaf)
            except Exception:
                pass
            if cur is None:
                steps.add(None)
                continue
            df = sub(cur, sym)
            if df.op == 'int':
                steps.add(df.a[0])
            elif df in trips:
                steps.add('inner')
            elif inner and cur is inner[1]:
                steps.add('inner')
            else:
                steps.add(None)
    if not steps:
        return None
    return (steps.pop() if len(steps) == 1 else None), ini


def turns(info, t):
    """Counters that move by a fixed amount in every turn of their loop, in terms of the number of the turn."""
    m = {}
    for x in walk(t):
        y = x.a[0] if x.op == 'len' else x
        if y.op not in ('seqlv', 'lv') or x.op == 'seqlv' or x.op == 'len' and y.op == 'lv':
            continue
        b = counted(info, y, y.a[0])
        if b is not None and isinstance(b[0], int):
            m[x] = add(length(b[1]) if x.op == 'len' else b[1], mul(mk('iv', y.a[0]), b[0]))
    return turns(info, subst(t, m)) if m else t


def getleaf(s, leaf):
    loc, path = leaf
    v = s.mem[loc]
    for p in path:
        if v.op != 'agg':
            return None
        v = v.a[2][p[1] if isinstance(p, tuple) else p]
    return v


# ---- cell facts -----------------------------------------------------------------------------------------
class Cell(object):
    """What an alternative knows about entry [row][key] of a two-level map."""

    def __init__(self, mp, row, key, facts):
        self.mp, self.row, self.key = mp, row, key
        self.outer = self.inner = None
        self.foreign = []
        self.kinds = None
        for a, v in facts:
            for x in walk(a):
                self.look(x)
            if a.op == 'has':
                if a.a[0] is mp and a.a[1] is row:
                    self.outer = v
                elif self.is_row(a.a[0]) and a.a[1] is key or a.a[0] is mp and self.is_pair(a.a[1]):
                    self.inner = v
            if a.op == 'gt0' and isinstance(v, bool) and a.a[0] is sub(length(mp), row):
                # the rows are a list
                self.outer = v
            if a.op == 'discr' and self.is_value(a.a[0]):
                self.kinds = v if self.kinds is None else self.kinds & v

    def is_pair(self, t):
        return t.op == 'agg' and tuple(t.a[2]) == (self.row, self.key)

    def look(self, x):
        if x.op in ('get', 'has'):
            if x.a[0] is self.mp and x.a[1] is not self.row and not self.is_pair(x.a[1]):
                self.foreign.append(x)
            if self.row_at(x.a[0]) is not None and x.a[1] is not self.key:
                self.foreign.append(x)
        elif x.op == 'elem' and x.a[0] is self.mp and x.a[1] is not self.row:
            self.foreign.append(x)

    def row_at(self, t):
        """t is a row of the table: its position"""
        if t.op == 'elem' and t.a[0] is self.mp:
            return t.a[1]
        q = some_of(t)
        return q.a[1] if q is not None and q.op == 'get' and q.a[0] is self.mp else None

    def is_row(self, t):
        return self.row_at(t) is self.row

    def is_value(self, t):
        q = some_of(t)
        return q is not None and q.op == 'get' and (self.is_row(q.a[0]) and q.a[1] is self.key or q.a[0] is self.mp and self.is_pair(q.a[1]))

    def state(self):
        if self.outer is False or self.inner is False:
            return 'absent'
        if self.inner is True:
            return 'present'
        return None

    def payload(self, t, variant, i):
        """t is payload i of the entry, seen as variant"""
        return t.op == 'field' and t.a[2] == variant and str(t.a[3]) == str(i) and self.is_value(t.a[0])


def last_ident(nodes):
    """(identifier, rest) of a path a::b::C followed by rest."""
    i = 0
    nm = None
    while i < len(nodes):
        if istok(nodes[i], '::') or istok(nodes[i], ':'):
            i += 1
            continue
        if isinstance(nodes[i], Tok) and nodes[i].kind == 'i':
            nm = nodes[i].text
            i += 1
            if i < len(nodes) and (istok(nodes[i], '::') or istok(nodes[i], ':')):
                continue
        break
    return nm, nodes[i:]


def struct_fields(g):
    """{name: nodes} of `{ a: x, b: y }` (shorthand fields map to themselves)."""
    out = {}
    cur = []
    for n in list(g.parts) + [Tok(',', 'p')]:
        if istok(n, ','):
            if cur:
                if not (isinstance(cur[0], Tok) and cur[0].kind == 'i'):
                    return None
                if len(cur) > 1:
                    if not istok(cur[1], ':'):
                        return None
                    out[cur[0].text] = cur[2:]
                else:
                    out[cur[0].text] = cur
            cur = []
        else:
            cur.append(n)
    return out


def single_hole(nodes):
    """The term of a lone interpolated value, through casts and parentheses."""
    if len(nodes) == 1 and isinstance(nodes[0], Grp) and nodes[0].delim in ('Parenthesis', 'None'):
        return single_hole(nodes[0].parts)
    if len(nodes) == 1 and isinstance(nodes[0], Hole):
        return nodes[0].term
    return None
