"""The token template of the emitted parser is evaluated symbolically: the arrays with the table entries are found in it, and for every
row and column the emitted cell is compared, alternative by alternative, with the entry of the computed table it stands for (its
key, its presence and the parts of its action); lengths, column order, production lengths and action numbers are compared as terms."""
from base import *
from emit import *
from shape import *
import emit


def table_statics(R):
    """Statics whose value is an array of arrays."""
    out = []
    for c in R.find('static'):
        v = c.value
        if len(v) == 1 and isinstance(v[0], Grp) and v[0].delim == 'Bracket':
            rows = [n for n in walk_nodes(v[0].parts) if isinstance(n, Grp) and n.delim == 'Bracket']
            if rows or any(isinstance(y, Grp) and y.delim == 'Bracket' for x in c.ty if isinstance(x, Grp) for y in x.parts):
                out.append(c)
    return out


def dims(ty):
    """[[T; a]; b] -> (b, a) as terms."""
    if len(ty) == 1 and isinstance(ty[0], Grp) and ty[0].delim == 'Bracket':
        ps = ty[0].parts
        k = next((i for i, x in enumerate(ps) if istok(x, ';')), None)
        if k is None:
            return None
        n = single_hole(ps[k + 1:])
        inner = dims(ps[:k])
        return (n,) + (inner or ())
    return ()


def mentions(nodes, t):
    for n in walk_nodes(nodes):
        if isinstance(n, (Hole, Unk)) and contains(n.term, t):
            return True
        if isinstance(n, Lst) and any(contains(a, t) for i in n.items for f, _ in i.alts for a, _ in f):
            return True
    return False


def uses_map(nodes, mp):
    for n in walk_nodes(nodes):
        ts = [n.term] if isinstance(n, (Hole, Unk)) else [a for i in n.items for f, _ in i.alts for a, _ in f] if isinstance(n, Lst) else []
        for t in ts:
            if contains(t, mp):
                return True
    return False


def overwritten(I, m, mp):
    """The sequence whose length is m is changed in place by a loop, with values that do not come from the table: (position, value)."""
    if m.op != 'len' or m.a[0].op != 'lv':
        return None
    sym = m.a[0]
    for L, li in I.loopinfo.items():
        for (loc, pth), (kind, init, s) in li['leaves'].items():
            if s is not sym or not contains(init, mp):
                continue
            for st, H, tgt, d in li['backs']:
                v = st.mem.get(loc)
                v = I.get_leaf(v, pth) if v is not None else None
                if v is not None and v.op == 'setelem' and v.a[0] is sym:
                    x = v.a[2]
                    if not contains(x, mp) and not contains(x, elem(sym, v.a[1])):
                        return v.a[1], x
    return None


class Check(object):
    def __init__(self, rep, M, R):
        self.rep, self.M, self.R = rep, M, R

    def table(self, c, mp, kind):
        rep, M = self.rep, self.M
        w = '%s static %s' % (M.where, show(c.name))
        d = dims(c.ty)
        ncol = add(M.n_terms, INT(1)) if kind == 'action' else M.n_nts
        if d is not None and len(d) >= 2:
            rep.check(d[0] is M.n_states, 'shape', w, 'one row per state', 'declared with %s rows' % show(d[0] or STR('?')))
            rep.check(d[1] is ncol, 'shape', w, 'one column per symbol', 'declared with %s columns, expected %s' % (show(d[1] or STR('?')), show(ncol)))
        rows, n = cells(c.value[0].parts, w)
        if n is not M.n_states:
            x = short(M.E.G, n, M.n_states, M.E.I)
            if x is not None:
                rep.viol('shape', w, 'fewer rows than states when %s' % x)
            else:
                rep.und('shape', w, '%s rows' % show(n))
            return
        for loops, facts, off, ps in rows:
            if len(loops) != 1 or off is not loops[0][0].iv:
                rep.und('row', w, 'row at %s' % show(off))
                continue
            r = off
            x = decisive([facts], [p[1] for p in rows if p[3]], loops[0][0].iv.a[0]) if not ps else None
            if x is not None:
                rep.viol('row', w, 'no row is emitted when %s is %s' % (show(x[0])[:150], x[1]))
                continue
            if not (len(ps) == 1 and isinstance(ps[0], Grp) and ps[0].delim == 'Bracket'):
                rep.und('row', w, repr(ps)[:150])
                continue
            cs, m = cells(ps[0].parts, w)
            if m is not ncol:
                x = overwritten(M.E.I, m, mp)
                if x is not None:
                    rep.viol('row', w, 'entries of a row are replaced: column %s becomes %s' % (show(x[0])[:60], show(x[1])[:120]))
                elif self.short(m, kind):
                    rep.viol('row', w, 'fewer columns than symbols when %s' % self.short(m, kind))
                elif m.op == 'unk' or uses_len(m):
                    rep.und('row', w, 'columns %s' % show(m)[:150])
                else:
                    rep.viol('row', w, 'a row has %s columns, expected %s' % (show(m)[:100], show(ncol)))
                continue
            for l2, f2, o2, p2 in cs:
                self.cell(w, mp, kind, r, l2, facts | f2, o2, p2)

    def short(self, m, kind):
        if kind == 'action':
            return short(self.M.E.G, sub(m, INT(1)), self.M.n_terms, self.M.E.I) or short(self.M.E.G, m, add(self.M.n_terms, INT(1)), self.M.E.I)
        return short(self.M.E.G, m, self.M.n_nts, self.M.E.I)

    def cell(self, w, mp, kind, r, loops, facts, off, ps):
        rep, M = self.rep, self.M
        if kind == 'goto':
            if len(loops) != 1:
                rep.und('goto cell', w, 'column at %s' % show(off))
                return
            key = off
            col = 'non-terminal ' + show(off)
        elif len(loops) == 1 and loops[0][0].count is M.n_terms and off is loops[0][0].iv:
            key = SOME(off)
            col = 'token'
        elif not loops and off is M.n_terms:
            key = NONE
            col = 'end of input'
        elif len(loops) == 1 and off is loops[0][0].iv and loops[0][0].count is add(M.n_terms, INT(1)) and not mentions(ps, off):
            self.cell_at(w, mp, kind, r, SOME(off), 'token', facts, ps)
            self.cell_at(w, mp, kind, r, NONE, 'end of input', facts, ps)
            return
        elif len(loops) == 1 and off is not loops[0][0].iv and sub(off, loops[0][0].iv).op == 'int':
            rep.viol('column order', w, 'a token has column %s' % show(off))
            return
        elif not loops:
            rep.viol('column order', w, 'end of input has column %s' % show(off))
            return
        else:
            rep.und('column order', w, show(off)[:150])
            return
        self.cell_at(w, mp, kind, r, key, col, facts, ps)

    def cell_at(self, w, mp, kind, r, key, col, facts, ps):
        rep, M = self.rep, self.M
        rule = kind + ' cell'
        C = Cell(mp, r, key, facts)
        for n in walk_nodes(ps):
            if isinstance(n, (Hole, Unk)):
                for x in walk(n.term):
                    C.look(x)
        if C.foreign:
            rep.viol(rule, w, 'the cell of %s depends on another entry: %s' % (col, show(C.foreign[0])[:200]))
            return
        st = C.state()
        nm, rest = last_ident(ps)
        if nm not in ('Some', 'None') or (nm == 'None' and rest):
            rep.und(rule, w, 'cell %s' % repr(ps)[:150])
            return
        if nm == 'None':
            if st == 'absent':
                rep.ok(rule, w, '%s: missing entry stays missing' % col)
            elif st == 'present':
                rep.viol(rule, w, 'the entry of %s is dropped when %s' % (col, showf(facts)))
            elif usesmap_facts(facts, mp) and all(some_there(a, v, key) for a, v in facts if contains(a, mp)) and not any(contains(a, key) for a, _ in facts):
                rep.viol(rule, w, 'the cell of %s is empty although its row has entries: %s' % (col, showf(facts)))
            elif usesmap_facts(facts, mp):
                rep.und(rule, w, 'the cell of %s is empty when %s' % (col, showf(facts)))
            else:
                rep.viol(rule, w, 'the cell of %s is empty whatever the table says (%s)' % (col, showf(facts)))
            return
        if st == 'absent':
            rep.viol(rule, w, 'an entry for %s is emitted although there is none: %s' % (col, repr(ps)[:150]))
            return
        if not (len(rest) == 1 and isinstance(rest[0], Grp)):
            rep.und(rule, w, 'cell %s' % repr(ps)[:150])
            return
        inner = rest[0].parts
        if kind == 'goto':
            t = single_hole(inner)
            if t is None:
                rep.und(rule, w, 'goto %s' % repr(inner)[:150])
            elif C.is_value(t):
                rep.ok(rule, w, '%s: the computed state' % col)
            else:
                rep.viol(rule, w, 'the goto state is %s' % show(t)[:200])
            return
        v, rest = last_ident(inner)
        if v not in ('Shift', 'Reduce', 'Accept'):
            rep.und(rule, w, 'action %s' % repr(inner)[:150])
            return
        if C.kinds is None:
            rep.und(rule, w, '%s emitted without knowing the action' % v)
            return
        if C.kinds != frozenset([v]):
            rep.viol(rule, w, '%s is emitted for %s' % (v, '/'.join(sorted(C.kinds))))
            return
        if v == 'Accept':
            rep.check(not rest, rule, w, '%s: accept' % col, 'accept carries data')
            return
        if not (len(rest) == 1 and isinstance(rest[0], Grp)):
            rep.und(rule, w, repr(rest)[:150])
            return
        fs = struct_fields(rest[0]) if rest[0].delim == 'Brace' else None
        want = {'Shift': {'next_state': None}, 'Reduce': {'non_terminal_idx': None, 'n_symbols': None, 'semantic_action_idx': None}}[v]
        if fs is None or set(fs) != set(want):
            rep.und(rule, w, 'fields of %s: %s' % (v, repr(rest)[:150]))
            return
        val = {k: single_hole(x) for k, x in fs.items()}
        for k, t in val.items():
            if t is None:
                rep.und(rule, w, '%s: %s' % (k, repr(fs[k])[:100]))
        if v == 'Shift':
            t = val['next_state']
            if t is not None:
                rep.check(C.payload(t, 'Shift', 0), rule, w, '%s: shift to the computed state' % col, 'shift goes to %s' % show(t)[:200])
            return
        t = val['non_terminal_idx']
        if t is not None:
            rep.check(C.payload(t, 'Reduce', 0), rule, w, '%s: reduce to the own non-terminal' % col, 'reduce has non-terminal %s' % show(t)[:200])
        t = val['semantic_action_idx']
        if t is not None:
            rep.check(C.payload(t, 'Reduce', 2), rule, w, '%s: own action number' % col, 'reduce has action %s' % show(t)[:200])
        t = val['n_symbols']
        if t is not None:
            good = False
            if t.op == 'len':
                import gram
                s = gram.symbols_of(t.a[0])
                good = s is not None and C.payload(s[1], 'Reduce', 0) and C.payload(s[2], 'Reduce', 1) and (s[0] is M.g0 or s[0] is M.gn)
            rep.check(good, rule, w, '%s: length of the own production' % col, 'reduce has length %s' % show(t)[:300])


def uses_len(m):
    return any(x.op in ('unk', 'seqrep', 'lv', 'seqlv', 'phi', 'opq', 'perm') for x in walk(m))


def some_there(a, v, key):
    """The condition holds of rows with entries, and does not say which."""
    if contains(a, key):
        return False
    if a.op == 'has':
        return v is True
    if a.op in ('eq0', 'gt0'):
        c, ts = lin(a.a[0])
        return len(ts) == 1 and list(ts)[0].op == 'len' and list(ts.values())[0] == 1 and (v is True and (c < 0 or a.op == 'gt0'))
    return False


def usesmap_facts(facts, mp):
    return any(contains(a, mp) for a, _ in facts)


def showf(facts):
    return ', '.join('%s=%s' % (show(a)[:80], show(v) if not isinstance(v, bool) else v) for a, v in facts if a.op in ('has', 'discr') or True)[:300]


def action_array(M, R, rep):
    """SEMANTIC_ACTIONS: the names of the action functions in numbering order."""
    out = []
    for c in R.find('static'):
        if any(istok(x, 'fn') for g in c.ty if isinstance(g, Grp) for x in g.parts):
            out.append(c)
    if len(out) != 1:
        raise Undecided('%d arrays of functions' % len(out))
    return out[0]


def both_ends(M, ps):
    """The emitted parts are elements of a list that one loop fills at both ends."""
    if not any(x.op == 'elem' and x.a[0].op == 'lv' for q in ps if isinstance(q, (Hole, Unk)) for x in subterms(q.term)):
        return None
    G = M.E.G
    for n in G.nodes:
        if n.kind == 'push' and len(n.data) > 3 and n.data[3] == 'front' and n.loops and n.data[2] is not None and any(x.op == 'lv' for x in subterms(n.data[2])):
            for m in G.nodes:
                if m.kind == 'push' and len(m.data) == 3 and m.data[0] is n.data[0] and m.data[2] is n.data[2] and m.loops == n.loops:
                    return 'added at the end in %s and at the front in %s' % (base.where(m), base.where(n))
    return None


def action_order(M, R, rep):
    """Element k of the function array is the function emitted for production k: [(iv0, iv1, name)] or None."""
    c = action_array(M, R, rep)
    w = '%s static %s' % (M.where, show(c.name))
    if not (len(c.value) == 1 and isinstance(c.value[0], Grp)):
        rep.und('action order', w, repr(c.value)[:100])
        return None
    cs, n = cells(c.value[0].parts, w)
    res = None
    for loops, facts, off, ps in cs:
        pm = [x for q in ps if isinstance(q, (Hole, Unk)) for x in subterms(q.term) if x.op in ('perm', 'rev') or
              (x.op == 'elem' and loops and lin(x.a[1])[1].get(loops[-1][0].iv) == -1)]
        if pm:
            rep.viol('action order', w, 'the entries are not in the order of the productions: %s' % show(pm[0])[:150])
            return None
        x = decisive([facts], [q[1] for q in cs if q[3]], loops[-1][0].iv.a[0]) if not ps and loops else None
        if x is not None:
            rep.viol('action order', w, 'no entry for a production when %s is %s' % (show(x[0])[:150], x[1]))
            return None
        if len(loops) != 2 or len(ps) != 1 or name_of(ps[0]) is None:
            mix = both_ends(M, ps)
            if mix is not None:
                rep.viol('action order', w, 'the entries are not in the order of the productions: %s' % mix)
                return None
            rep.und('action order', w, repr(ps)[:150])
            return None
        (a, _), (b, _) = loops
        if a.count is not M.n_nts or b.count is not length(M.prods(a.iv)):
            rep.und('action order', w, 'loops %s, %s' % (show(a.count)[:80], show(b.count)[:80]))
            return None
        m = {a.iv: mk('param', 'i'), b.iv: mk('param', 'j')}
        nm = subst(norm_name(name_of(ps[0])), m)
        fns = []
        for f in R.find('fn'):
            if f.owner is None and len(f.loops()) == 2:
                (x, _), (y, _) = f.loops()
                fns.append((f, x, y, subst(f.name, {x.iv: mk('param', 'i'), y.iv: mk('param', 'j')})))
        hit = [q for q in fns if q[3] is nm]
        if not hit:
            if fns:
                rep.viol('action order', w, 'entry of production (i, j) names %s, the emitted functions are named %s' % (show(nm), ', '.join(show(q[3]) for q in fns)))
            else:
                rep.und('action order', w, 'no function named %s' % show(nm))
            return None
        for f, x, y, _ in hit:
            if x.count is not M.n_nts or y.count is not length(M.prods(x.iv)):
                rep.und('action order', w, 'functions emitted over %s, %s' % (show(x.count)[:80], show(y.count)[:80]))
                return None
        rep.ok('action order', w, 'one entry per production, in order, naming the function of that production')
        res = hit
    return res


def check(ctx, rep, tier):
    E = Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    rep.note('emitted templates', len(E.rets))
    for R in E.rets:
        M = Model(E, R, rep)
        M.origin()
        M.numbering()
        K = Check(rep, M, R)
        act = [c for c in table_statics(R) if uses_map(c.value, M.action)]
        got = [c for c in table_statics(R) if uses_map(c.value, M.goto) and not uses_map(c.value, M.action)]
        if len(act) != 1 or len(got) != 1:
            raise Undecided('%d action arrays and %d goto arrays' % (len(act), len(got)))
        K.table(act[0], M.action, 'action')
        K.table(got[0], M.goto, 'goto')
        action_order(M, R, rep)
    rep.assumptions.append('the emitted text is the value quote! builds from its template (models of quote and the token types)')
    rep.assumptions.append('the computed table itself: C04, C05; index ranges of the arrays: C15')
