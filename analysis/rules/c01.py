"""Flow rules on the event graph of generate_first_table (all callees inlined): every insertion into a first set and every
"can be empty" mark is justified by the symbols before it; no terminal, no element of a nullable prefix's first set and no
emptiness is skipped; every non-terminal and production is visited; any change leads to another round."""
from base import *
from gram import *
import prims

ROOT = 'generate_first_table'


def check(ctx, rep, tier):
    I = ctx.run(ROOT)
    G = Graph(I)
    rep.note('event graph nodes', len(G.nodes))
    R = None
    for r in I.rets:
        v = r.data[0]
        if v.op == 'agg' and v.a[0].endswith('FirstTable') and len(v.a[2]) == 1:
            x = G.root(v.a[2][0])
        else:
            raise Undecided('the returned table has an unexpected representation')
        if R is not None and x is not R:
            raise Undecided('several returned tables')
        R = x
    if R is None:
        rep.viol('result', ROOT, 'the function never returns')
        return
    g = mk('param', 0, I.live_nodes[0] and ctx.body(ROOT).locals[1].get('name') or 'arg1')
    NTS = None

    def table_at(t):
        """t = TABLE[j] -> j"""
        if t.op == 'elem':
            b = t.a[0]
            if G.root(b) is R:
                return t.a[1]
            if b.op == 'field' and G.root(b) is R:
                return t.a[1]
        return None

    def set_at(t):
        """t = the set of tokens of TABLE[j] -> j"""
        if t.op == 'field' and (t.a[1] or '').endswith('FirstSet') and t.a[3] != 'empty':
            return table_at(t.a[0])
        return None

    def empty_at(t):
        if t.op == 'field' and (t.a[1] or '').endswith('FirstSet') and t.a[3] == 'empty':
            return table_at(t.a[0])
        return None

    def empty_cond(n):
        if n.kind == 'cond':
            return empty_at(n.data[0])
        return None

    def elem_of_set(k):
        """k = some element (number m) of TABLE[j]'s set -> (j, m)"""
        if k.op == 'elem' and k.a[0].op == 'setseq':
            j = set_at(k.a[0].a[0])
            if j is not None:
                return j, k.a[1], k.a[0]
        if k.op == 'elem' and k.a[0].op == 'elem':
            pass
        return None

    # ---- initial table -------------------------------------------------------------------
    init_ok = None
    if R.op == 'seqrep' and R.a[1] is EMPTY and len(R.a[2]) == 1:
        ps = R.a[2][0][1]
        if len(ps) == 1 and ps[0][0] == 'e' and ps[0][1].op == 'agg' and ps[0][1].a[0].endswith('FirstSet'):
            fs = ps[0][1].a[2]
            init_ok = any(f is FALSE for f in fs) and any(f.op in ('new', 'newset', 'newmap') for f in fs)
        trip = R.a[3]
    elif R.op == 'fill' and R.a[0].op == 'agg' and R.a[0].a[0].endswith('FirstSet'):
        fs = R.a[0].a[2]
        init_ok = any(f is FALSE for f in fs) and any(f.op in ('new', 'newset', 'newmap') for f in fs)
        trip = R.a[1]
    elif R.op in ('zeros', 'repeat', 'fillseq') or R.op == 'seqrep':
        trip = R.a[1] if R.op != 'seqrep' else R.a[3]
    else:
        trip = None
    if init_ok is None:
        rep.und('initial table', ROOT, show(R)[:200])
    else:
        rep.check(init_ok, 'initial table', ROOT, show(R)[:200], 'first sets do not start empty: ' + show(R)[:200])
        if trip is not None and trip.op == 'len' and fld(trip.a[0], 'non_terminals', 'Grammar') is not None:
            rep.ok('table size', ROOT, show(trip))
            NTS = trip.a[0]
        else:
            rep.viol('table size', ROOT, 'the table has %s entries instead of one per non-terminal' % (show(trip) if trip is not None else '?'))

    # ---- events --------------------------------------------------------------------------
    ins, foreign, empties = [], 0, []
    for n in G.nodes:
        if n.kind == 'ins':
            i = set_at(n.data[0])
            if i is not None:
                ins.append((n, i, n.data[1]))
            else:
                foreign += 1
        elif n.kind in ('rem', 'clear', 'trunc'):
            if n.data[0].op != 'ptr' and set_at(n.data[0]) is not None:
                rep.viol('no removal', where(n), 'tokens are removed from a first set')
        elif n.kind == 'store':
            p = n.data[1]
            if p and p[-1][0] == 'f' and (p[-1][1] or '').endswith('FirstSet') and len(p) >= 2 and p[-2][0] == 'i':
                if p[-1][4] == 'empty':
                    if n.data[2] is FALSE:
                        rep.viol('no removal', where(n), 'emptiness is withdrawn')
                    else:
                        empties.append((n, p[-2][1]))
    rep.note('insertions', len(ins))
    rep.note('emptiness marks', len(empties))
    if not ins or not empties:
        if foreign:
            rep.und('anchors', ROOT, 'first sets are built in another representation')
            return
    # stores of a computed truth value: the mark must be conditional; keep only constant true
    odd = [n for n, i in empties if n.data[2] is not TRUE]
    for n in odd:
        rep.und('emptiness', where(n), 'stored value %s' % show(n.data[2])[:100])
    if odd:
        return

    # ---- loops over the symbols of a production ---------------------------------------------
    symloops = {}      # L -> (Sym without m)
    unknownkeys = False

    def symloop(s):
        return s.m.a[0] if s.m.op == 'iv' else None

    discrs = []
    for n in G.nodes:
        d = discr_cond(n)
        if d is None:
            continue
        s = sym_at(d[0])
        if s is None:
            continue
        discrs.append((n, s, d[1]))
        L = symloop(s)
        if L is None:
            c, dd = lin(s.m)
            rep.viol('symbol order', where(n), 'symbol number %s is examined: the symbols are not visited one by one from the first' % show(s.m))
            continue
        symloops.setdefault(L, s)
    if not discrs:
        raise Undecided('no symbol kind is examined')

    # ---- the passes over the grammar: what each of them records -------------------------------
    def passof(n):
        return [l for l in n.loops if l in passes]
    passes = {s.i.a[0]: s for s in symloops.values() if s.i.op == 'iv'}
    has_ins, has_emp = set(), set()
    for n, i, k in ins:
        has_ins |= set(passof(n))
    for n, i in empties:
        has_emp |= set(passof(n))

    def group(s):
        return s.i.a[0] if s.i.op == 'iv' else None

    def adds(s):
        """The pass that looks at s is one that adds tokens (any other pass does)."""
        return group(s) in has_ins or not has_ins

    def marks(s):
        return group(s) in has_emp or not has_emp

    def fixloop(L):
        hs = G.hdrs.get(L, [])
        ls = [l for h in hs for l in h.loops if not_counted(G, l)]
        return ls[0] if ls else None
    for g in has_ins - has_emp:
        F = fixloop(g)
        for n, i in empties:
            if F is not None and F in n.loops:
                continue
            p = path(G.hdrs.get(g, []), lambda m: m is n, lambda m: False)
            rep.check(p is None, 'order of passes', where(n), 'emptiness is known before the tokens are computed',
                      'emptiness is found after the tokens that depend on it were computed')

    # ---- soundness of insertions ---------------------------------------------------------
    for n, i, k in ins:
        pl = payload(k)
        if pl is not None:
            kind, s = pl
            if kind != 'Terminal':
                rep.viol('insertion', where(n), 'a non-terminal index is inserted as a token')
            elif s.i is not i:
                rep.viol('insertion', where(n), 'token of non-terminal %s inserted into the first set of %s' % (show(s.i), show(i)))
            else:
                rep.ok('insertion', where(n), show(k)[:160])
            continue
        e = elem_of_set(k)
        if e is not None:
            pj = payload(e[0])
            if pj is None or pj[0] != 'NonTerminal' or pj[1].i is not i:
                rep.viol('insertion', where(n), 'tokens of %s are inserted into the first set of %s' % (show(e[0])[:120], show(i)))
            else:
                rep.ok('insertion', where(n), show(k)[:160])
            continue
        if k.op == 'elem' and k.a[0].op == 'setseq' or k.op in ('lv', 'opq', 'old') or any(x.op in ('opq', 'lv', 'res') for x in walk(k)):
            if not any(set_at(x) is not None for x in walk(k)) or True:
                rep.und('insertion', where(n), 'origin of %s is not understood' % show(k)[:160])
                unknownkeys = True
                continue
        rep.viol('insertion', where(n), 'inserts %s, which no production justifies' % show(k)[:200])
    if unknownkeys:
        return

    # ---- iteration: only past symbols that can be empty --------------------------------------
    def empty_true(s):
        def f(n):
            j = empty_cond(n)
            if j is None or n.data[1] is not True:
                return False
            pj = payload(j)
            return pj is not None and pj[1].key() == s.key()
        return f

    for L, s in symloops.items():
        hs = G.hdrs.get(L, [])
        et = empty_true(s)
        for h in hs:
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, lambda m: et(m) or (m.kind == 'exit' and m.data[0] == L))
            rep.check(p is None, 'prefix empty', where(h), 'next symbol only after a nullable one',
                      'a later symbol is examined although the one before it cannot be empty: ' + (show_path(p) if p else ''))
        full = mk('len', mk('x')) if False else None
        for x in G.exits.get(L, []):
            if x.data[1] is not None:
                t = x.data[1]
                okk = t.op == 'len' and symbols_of(t.a[0]) == (s.g, s.i, s.p)
                rep.check(okk, 'all symbols', where(x), show(t)[:120], 'the loop over the symbols stops after %s symbols' % show(t)[:120])
        # the body examines the symbol
        for h in hs:
            p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] in h.loops) or m.kind == 'ret',
                     lambda m: (discr_cond(m) is not None and sym_at(discr_cond(m)[0]) is not None and sym_at(discr_cond(m)[0]).key() == s.key())
                     or (m.kind == 'exit' and m.data[0] == L and m.data[1] is not None))
            rep.check(p is None, 'symbol examined', where(h), 'each symbol is examined', 'a symbol is skipped: ' + (show_path(p) if p else ''))

    # ---- completeness -------------------------------------------------------------------------
    # loops that copy a whole first set
    copies = {}
    for n, i, k in ins:
        e = elem_of_set(k)
        if e is not None and e[1].op == 'iv':
            copies.setdefault(e[1].a[0], []).append((n, i, e))
    good_copies = {}
    for L, lst in copies.items():
        nodes = {n.id for n, _, _ in lst}
        ok = True
        for h in G.hdrs.get(L, []):
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, lambda m: m.id in nodes or (m.kind == 'exit' and m.data[0] == L))
            if p is not None:
                ok = False
                rep.viol('copy', where(h), 'a token of the set is skipped: ' + show_path(p))
        for x in G.exits.get(L, []):
            if x.data[1] is None:
                # early exit: only into a failure
                if not G.only_panics(x):
                    ok = False
                    rep.viol('copy', where(x), 'copying a first set stops early')
        if ok:
            good_copies[L] = lst

    def covers(n, s):
        """Is n the complete end of a copy of FIRST of symbol s into FIRST[s.i]?"""
        if n.kind != 'exit' or n.data[0] not in good_copies or n.data[1] is None:
            return False
        for m, i, e in good_copies[n.data[0]]:
            pj = payload(e[0])
            if i is s.i and pj and pj[1].key() == s.key():
                return True
        return False

    def own_set(m, s):
        """The symbol is the non-terminal itself: its set is contained already."""
        if m.kind != 'cond' or m.data[0].op != 'eq0' or m.data[1] is not True:
            return False
        c, d = lin(m.data[0].a[0])
        if c != 0 or len(d) != 2 or s.i not in d:
            return False
        o = [x for x in d if x is not s.i]
        pl = payload(o[0])
        return d[s.i] == -d[o[0]] and pl is not None and pl[0] == 'NonTerminal' and pl[1].key() == s.key()

    seen_t = seen_nt = 0
    for n, s, names in discrs:
        if symloop(s) is None:
            continue
        L = symloop(s)
        outer = [l for l in n.loops]
        end = lambda m: (m.kind == 'hdr' and m.data[0] in outer) or m.kind == 'ret'
        if names == frozenset(['Terminal']):
            if not adds(s):
                continue
            seen_t += 1
            p = path(n, end, lambda m: m.kind == 'ins' and set_at(m.data[0]) is s.i and payload(m.data[1]) is not None
                     and payload(m.data[1])[0] == 'Terminal' and payload(m.data[1])[1].key() == s.key())
            rep.check(p is None, 'terminal added', where(n), 'a terminal is added to the set of its non-terminal',
                      'a terminal that can come first is not added: ' + (show_path(p) if p else ''))
        elif names == frozenset(['NonTerminal']):
            if adds(s):
                seen_nt += 1
                p = path(n, end, lambda m: covers(m, s) or own_set(m, s))
                rep.check(p is None, 'set added', where(n), 'the whole first set of the symbol is added',
                          'the first set of a symbol is not added completely: ' + (show_path(p) if p else ''))
            # leaving without moving to the next symbol only when it cannot be empty
            def ef(m):
                j = empty_cond(m)
                return j is not None and m.data[1] is False and payload(j) is not None and payload(j)[1].key() == s.key()
            end2 = lambda m: (m.kind == 'hdr' and m.data[0] in outer and m.data[0] != L) or m.kind == 'ret'
            p = path(n, end2, lambda m: ef(m) or (m.kind == 'hdr' and m.data[0] == L))
            rep.check(p is None, 'nullable continues', where(n), 'a nullable symbol is passed over',
                      'the symbols after one that can be empty are ignored: ' + (show_path(p) if p else ''))
    if not seen_t:
        rep.viol('terminal added', ROOT, 'terminals are never examined')
    if not seen_nt:
        rep.viol('set added', ROOT, 'non-terminals are never examined')

    def set_empty(s):
        return lambda m: m.kind == 'store' and any(m is e and i is s.i for e, i in empties)
    for L, s in symloops.items():
        if not marks(s):
            continue
        for x in G.exits.get(L, []):
            if x.data[1] is None:
                continue
            end = lambda m: (m.kind == 'hdr' and m.data[0] in x.loops) or m.kind == 'ret'
            p = path(x, end, lambda m: set_empty(s)(m) or m.data and empty_cond(m) is s.i and m.data[1] is True)
            rep.check(p is None, 'emptiness recorded', where(x), 'all symbols nullable: marked empty',
                      'a production whose symbols can all be empty does not make its non-terminal empty: ' + (show_path(p) if p else ''))
    for n, i in empties:
        good = False
        prods = set((s.g, s.i, s.p) for s in symloops.values() if s.i is i)
        for pr in prods:
            ls = [L for L, s in symloops.items() if (s.g, s.i, s.p) == pr]
            def just(m, ls=ls):
                return m.kind == 'exit' and m.data[0] in ls and m.data[1] is not None or no_symbols(m, pr)
            # walk from the start of the iteration of the production loop
            piv = pr[2].a[0] if pr[2].op == 'iv' else None
            srcs = [h for h in G.nodes if h.kind == 'hdr' and h.data[0] == piv] if piv else [I.entry]
            if path(srcs, lambda m: m is n, just) is None:
                good = True
        if not prods and not any(symbols_of(f.a[0].a[0]) for f in n.facts if f.op == 'gt0' and f.a[0].op == 'len'):
            rep.und('emptiness justified', where(n), 'index %s not understood' % show(i))
            continue
        rep.check(good, 'emptiness justified', where(n), 'only when every symbol can be empty',
                  'a non-terminal is marked empty although not every symbol of the production can be empty')

    # ---- every non-terminal and production -----------------------------------------------------
    prods = set((s.i, s.p) for s in symloops.values())
    unknown = False
    for i, p in prods:
        for v, what in ((i, 'non-terminal'), (p, 'production')):
            if v.op != 'iv':
                unknown = True
                c, d = lin(v)
                if any(x.op == 'iv' and y < 0 for x, y in d.items()):
                    rep.und('all visited', ROOT, '%ss are visited from the last to the first' % what)
                elif v.op in ('lin', 'int') or v.op == 'lin':
                    rep.viol('all visited', ROOT, '%s index %s does not start at the first' % (what, show(v)))
                else:
                    rep.und('all visited', ROOT, '%s index %s' % (what, show(v)))
                continue
            L = v.a[0]
            for x in G.exits.get(L, []):
                t = x.data[1]
                if t is None:
                    if what == 'production' and i.op == 'iv' and i.a[0] in has_emp - has_ins and \
                            path(x, lambda m: m.kind == 'hdr' and m.data[0] in x.loops or m.kind == 'ret',
                                 lambda m: any(m is e and j is i for e, j in empties) or m.data and empty_cond(m) is i and m.data[1] is True) is None:
                        rep.ok('all visited', where(x), 'leaves once the non-terminal is known to be empty')
                        continue
                    rep.check(G.only_panics(x), 'all visited', where(x), 'leaves only by failing', 'the loop over %ss stops early' % what)
                    continue
                want = t.op == 'len' and (fld(t.a[0], 'non_terminals', 'Grammar') is not None if what == 'non-terminal' else
                                          (fld(t.a[0], 'productions', 'NonTerminal') is not None and
                                           nt_at(fld(t.a[0], 'productions', 'NonTerminal')) is not None and
                                           nt_at(fld(t.a[0], 'productions', 'NonTerminal'))[1] is i))
                rep.check(want, 'all visited', where(x), show(t)[:100], 'the loop over %ss ends at %s' % (what, show(t)[:100]))
    # each production iteration looks at its symbols
    for L, s in list(symloops.items()):
        if s.p.op == 'iv':
            PL = s.p.a[0]
            ls = [l for l, z in symloops.items() if (z.i, z.p) == (s.i, s.p)]
            for h in G.hdrs.get(PL, []):
                end = lambda m: (m.kind == 'hdr' and m.data[0] in h.loops) or m.kind == 'ret'
                looked = lambda m: m.kind == 'hdr' and m.data[0] in ls or (m.kind == 'exit' and m.data[0] == PL and m.data[1] is not None) or set_empty(s)(m)
                none = lambda m: no_symbols(m, (s.g, s.i, s.p))
                p = path(h, end, lambda m: looked(m) or none(m))
                if p is None:
                    for z in [z for z in G.nodes if none(z) and h.data[0] in z.loops]:
                        p = p or path(z, end, lambda m: looked(m) or m.data and empty_cond(m) is s.i and m.data[1] is True)
                rep.check(p is None, 'production examined', where(h), 'each production is examined',
                          'a production is skipped: ' + (show_path(p) if p else ''))
        if s.i.op == 'iv' and s.p.op == 'iv':
            NL = s.i.a[0]
            pls = set(z.p.a[0] for z in symloops.values() if z.i is s.i and z.p.op == 'iv')
            if NL in pls:
                continue
            for h in G.hdrs.get(NL, []):
                p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] in h.loops) or m.kind == 'ret',
                         lambda m: m.kind == 'hdr' and m.data[0] in pls or (m.kind == 'exit' and m.data[0] == NL and m.data[1] is not None))
                rep.check(p is None, 'non-terminal examined', where(h), 'each non-terminal is examined',
                          'a non-terminal is skipped: ' + (show_path(p) if p else ''))

    # ---- another round after any change ---------------------------------------------------------
    if unknown:
        rep.und('fixpoint', ROOT, 'the order of visits is not understood')
        return
    visit = set(s.i.a[0] for s in symloops.values() if s.i.op == 'iv')
    changes = [(n, 'ins') for n, _, _ in ins] + [(n, 'empty') for n, _ in empties]
    for n, kind in changes:
        fix = [l for l in n.loops if not_counted(G, l)]
        if not fix:
            rep.viol('fixpoint', where(n), 'the sets are computed in a single pass')
            continue
        F = fix[0]
        live = committed(G, F, [v for v in visit if any(F in h.loops for h in G.hdrs.get(v, []))])
        def stop(m):
            if m.id in live:
                return True
            if kind == 'ins' and m.kind == 'cond' and m.data[0].op == 'has' and m.data[1] is True and m.data[0].a[0] is n.data[0] \
                    and m.data[0].a[1] is n.data[1]:
                return True
            if kind == 'empty' and m.kind == 'cond' and m.data[1] is True and empty_at(m.data[0]) is not None \
                    and empty_at(m.data[0]) is n.data[1][-2][1]:
                return True
            return False
        known = any((kind == 'ins' and f.op == 'has' and v is True and f.a[0] is n.data[0] and f.a[1] is n.data[1]) or
                    (kind == 'empty' and v is True and empty_at(f) is not None and empty_at(f) is n.data[1][-2][1])
                    for f, v in n.facts.items())
        if known:
            rep.ok('fixpoint', where(n), 'no change on this path')
            continue
        p = path(n, lambda m: m.kind == 'ret', stop)
        if p is not None and kind == 'ins':
            # the number of elements is compared with the number before, within one turn of a loop around
            for Lb in n.loops[n.loops.index(F) + 1:]:
                hb = lambda m: m.kind == 'hdr' and m.data[0] == Lb
                p1 = path(n, lambda m: m.kind == 'ret', lambda m: stop(m) or hb(m) or same_size(m, n, Lb))
                if p1 is not None:
                    continue
                reach = [h for h in G.hdrs.get(Lb, []) if path(n, lambda m: m is h, lambda m: stop(m) or same_size(m, n, Lb) or hb(m) and m is not h)]
                if not reach or path(reach, lambda m: m.kind == 'ret', stop) is None:
                    p = None
                    break
        if p is not None and any(m.kind == 'cond' and size_cond(m, set_at) for m in p):
            rep.und('fixpoint', where(n), 'change detection by size is not analysed')
            continue
        if p is not None and any(count_cond(m, F) for m in p):
            p = path(n, lambda m: m.kind == 'ret', lambda m: stop(m) or count_cond(m, F))
            if p is None:
                rep.und('fixpoint', where(n), 'change detection by counting is not analysed')
                continue
        rep.check(p is None, 'fixpoint', where(n), 'a change leads to another round',
                  'the sets may grow in the last round: ' + (show_path(p) if p else ''))
    rep.assumptions += ['std/fxhash set operations behave as documented']


def committed(G, F, visit):
    """Headers of loop F from which another round is certain."""
    return {h.id for h in G.hdrs.get(F, []) if visit and
            all(path(h, lambda m: m.kind == 'ret', lambda m: m.kind == 'hdr' and m.data[0] == v) is None for v in visit)}


def no_symbols(m, pr):
    if m.kind != 'cond':
        return False
    a = m.data[0]
    if a.op == 'gt0' and a.a[0].op == 'len' and symbols_of(a.a[0].a[0]) == pr and m.data[1] is False:
        return True
    return False


def count_cond(m, F):
    """A decision on a number computed in the rounds."""
    if m.kind != 'cond' or m.data[0].op not in ('gt0', 'eq0'):
        return False
    k, d = lin(m.data[0].a[0])
    return any(x.op == 'lv' for x in d)


def same_size(m, n, Lb):
    """The set n adds to has as many elements as at the start of the turn of Lb."""
    if m.kind != 'cond' or m.data[0].op not in ('eq0', 'gt0'):
        return False
    c, d = lin(m.data[0].a[0])
    if c != 0 or len(d) != 2 or not all(x.op == 'len' and x.a[0].op == 'setseq' and x.a[0].a[0] is n.data[0] for x in d):
        return False
    old = [x for x in d if x.a[0].a[1] == ('L', Lb)]
    new = [x for x in d if x not in old]
    if len(old) != 1:
        return False
    v = new[0].a[0].a[1]
    if not (v == n.id or any(v == ('L', l) for l in n.loops[n.loops.index(Lb) + 1:])):
        return False
    if m.data[0].op == 'eq0':
        return m.data[1] is True and d[old[0]] == -d[new[0]]
    return m.data[1] is False and d[new[0]] == 1 and d[old[0]] == -1


def size_cond(m, set_at):
    a = m.data[0]
    if a.op in ('gt0', 'eq0'):
        d = lin(a.a[0])[1]
        return len(d) == 2 and all(x.op == 'len' and x.a[0].op == 'setseq' for x in d) or any(x.op in ('opq', 'eqv', 'eq') for x in walk(a))
    for x in walk(a):
        if x.op == 'iv':
            return False
    return any(x.op == 'len' and set_at(x.a[0]) is not None for x in walk(a)) or \
        any(x.op in ('opq', 'eqv', 'eq') for x in walk(a))


def not_counted(G, L):
    """Loop L is not left only by a counter."""
    xs = G.exits.get(L, [])
    return bool(xs) and any(x.data[1] is None for x in xs) and not any(x.data[1] is not None for x in xs)
