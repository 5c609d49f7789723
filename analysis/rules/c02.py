"""Flow rules on the event graph of generate_lr1_automaton (closure computation inlined at each use): for every examined item
expecting a non-terminal, each production is predicted with each token the rest can begin with, and with the item's own
lookahead exactly when the whole rest can be empty; every new prediction is itself examined."""
from lr import *

ROOT = 'generate_lr1_automaton'


def first_at(t):
    """t = FIRST[j] -> j"""
    if t.op == 'elem':
        g = fld(t.a[0], '0', 'FirstTable')
        if g is None and t.a[0].op == 'field' and (t.a[0].a[1] or '').endswith('FirstTable'):
            g = t.a[0].a[0]
        if g is not None:
            return t.a[1]
    return None


def first_set(t):
    if t.op == 'field' and (t.a[1] or '').endswith('FirstSet') and t.a[3] != 'empty':
        return first_at(t.a[0])
    return None


def first_empty(t):
    if t.op == 'field' and (t.a[1] or '').endswith('FirstSet') and t.a[3] == 'empty':
        return first_at(t.a[0])
    return None


def past_end(G, t, i, wlroot):
    """t > 0 says that position i is behind the end of the list."""
    k, d = lin(t)
    ls = [y for y in d if y.op == 'len']
    return len(d) == 2 and len(ls) == 1 and d[ls[0]] == -1 and d.get(i) == 1 and k <= 1 and G.root(ls[0].a[0]) is wlroot


class Closure(object):
    pass


def closures(ctx, rep, I, G):
    """Closure computations found in the graph, keyed by the term of the examined item."""
    P = ctx.P
    item_fields(P)
    out = {}
    unknown = []
    for n in G.nodes:
        if n.kind not in ('ins', 'push'):
            continue
        it = as_item(P, n.data[1])
        if it is None:
            continue
        pl = payload(it.nt)
        if pl is None:
            continue
        o = owner(pl[1])
        if o is None:
            continue
        c = out.setdefault(o[0], Closure())
        if not hasattr(c, 'gens'):
            c.I, c.gens, c.conds = o[0], [], []
        c.gens.append((n, it, pl, o[1]))
    for n in G.nodes:
        d = discr_cond(n)
        if d is None:
            continue
        s = sym_at(d[0])
        if s is None:
            continue
        o = owner(s)
        if o is None or o[0] not in out:
            continue
        out[o[0]].conds.append((n, s, o[1], d[1]))
    return out


def check(ctx, rep, tier):
    I = ctx.run(ROOT)
    G = Graph(I)
    R = Rules(rep, G)
    rep.note('event graph nodes', len(G.nodes))
    cl = closures(ctx, rep, I, G)
    rep.note('closure computations', len(cl))
    if not cl:
        raise Undecided('no closure computation recognised')
    for J, c in cl.items():
        one(ctx, rep, G, R, c)
    rep.assumptions += ['std/fxhash collection operations behave as documented',
                        'the first table passed in is the grammar\'s (C01)']


def fixed_from(n, d, I0):
    """A position that is not counted from the dot: the dots (lowest, highest) with which it is used."""
    cur = [x for x in d if x.op == 'field' and x.a[3] == 'cursor' and x.a[0] is I0 and d[x] == -1]
    if len(cur) != 1 or len(d) != 2:
        return None
    cur = cur[0]
    lo, hi = 0, None
    for a, v in n.facts.items():
        if not any(x is cur for x in walk(a)):
            continue
        if a.op not in ('gt0', 'eq0'):
            continue
        k, t = lin(a.a[0])
        if set(t) != {cur} or abs(t[cur]) != 1:
            continue
        c = t[cur]
        if a.op == 'eq0' and v is True:
            lo = hi = -k * c
        elif a.op == 'gt0':
            # c*cur + k > 0, or not
            if (c == 1) == (v is True):
                lo = max(lo, 1 - k if c == 1 else k)
            else:
                b = -k if c == 1 else k - 1
                hi = b if hi is None else min(hi, b)
    return lo, hi


def one(ctx, rep, G, R, c):
    P, I0 = ctx.P, c.I
    # ---- the examined item and the loop that examines items ---------------------------------
    nx = [(n, s, v) for n, s, off, v in c.conds if off is INT(0)]
    if not nx:
        rep.viol('next symbol', where(c.gens[0][0]), 'predictions are made without looking at the symbol after the dot')
        return
    for n, it, pl, off in c.gens:
        rep.check(off is INT(0) and pl[0] == 'NonTerminal', 'predicted non-terminal', where(n), show(it.nt)[:150],
                  'predicts %s, not the non-terminal after the dot' % show(it.nt)[:150])
        rep.check(it.cursor is INT(0), 'dot at start', where(n), '', 'a predicted item starts at position %s' % show(it.cursor)[:80])
    loops = list(nx[0][0].loops)
    if not loops:
        rep.viol('worklist', where(nx[0][0]), 'only one item is expanded')
        return
    # the loop whose iteration the item belongs to: the innermost loop around the decision
    WL = loops[-1]
    wl = lambda m: m.kind == 'hdr' and m.data[0] == WL
    outer = set(loops[:-1])
    end = lambda m: wl(m) or m.kind == 'ret' or (m.kind == 'hdr' and m.data[0] in outer) or (m.kind == 'exit' and m.data[0] == WL)
    hw = G.hdrs.get(WL, [])

    # ---- suffix loops -------------------------------------------------------------------------
    suf = {}
    bad = False
    for n, s, off, v in c.conds:
        if off is INT(0):
            continue
        k, d = lin(off)
        ivs = [x for x in d if x.op == 'iv']
        fixed = fixed_from(n, d, I0)
        if len(ivs) == 1 and d[ivs[0]] == 1 and fixed is not None:
            lo, hi = fixed
            if lo == hi:
                k, d = k - lo, {ivs[0]: 1}
            elif hi is None or hi > lo:
                rep.viol('suffix start', where(n), 'the tokens that can follow are computed from a fixed position, not from the one after the dot: symbol %s' % show(s.m)[:100])
                bad = True
                continue
        if len(d) == 1 and len(ivs) == 1 and d[ivs[0]] == 1:
            if k != 1:
                rep.viol('suffix start', where(n), 'the tokens that can follow are computed from position %s after the dot instead of the symbol after the predicted one' % k)
                bad = True
            suf.setdefault(ivs[0].a[0], []).append((n, s, v))
        elif not d and k == 1:
            suf.setdefault(None, []).append((n, s, v))
        elif not ivs:
            rep.viol('suffix start', where(n), 'symbol %s is examined' % show(s.m)[:120]) if not any(x.op in ('lv', 'opq') for x in d) else \
                rep.und('suffix', where(n), 'symbol %s is examined' % show(s.m)[:120])
            bad = True
        else:
            rep.und('suffix', where(n), 'symbol %s is examined' % show(s.m)[:120])
            bad = True
    if bad:
        return
    if None in suf:
        if len(suf) == 1:
            rep.viol('whole suffix', where(suf[None][0][0]), 'only the first symbol after the predicted one is considered')
        else:
            rep.und('suffix', where(suf[None][0][0]), 'peeled loop')
        return
    if not suf:
        rep.viol('whole suffix', where(nx[0][0]), 'the symbols after the predicted non-terminal are not considered')
        return
    s0 = list(suf.values())[0][0][1]
    base_len = None
    full = set()
    for Ls in suf:
        for x in G.exits.get(Ls, []):
            t = x.data[1]
            if t is None:
                continue
            k, d = lin(t)
            cur = cursor_of(I0)
            ls = [y for y in d if y.op == 'len' and symbols_of(y.a[0]) == (s0.g, s0.i, s0.p)]
            ok = len(d) == 2 and len(ls) == 1 and d[ls[0]] == 1 and d.get(cur) == -1 and k == -1
            if not ok and any(y.op in ('lv', 'opq') for y in d):
                rep.und('suffix end', where(x), show(t)[:150])
            else:
                rep.check(ok, 'suffix end', where(x), show(t)[:150], 'the scan of the rest of the production ends after %s symbols' % show(t)[:150])
            full.add(x.id)
    fullx = lambda m: m.id in full
    sl = lambda m: m.kind == 'hdr' and m.data[0] in suf

    made = {g[1].term for g in c.gens}
    for n in G.nodes:
        if n.kind == 'ins' and n.data[1].op == 'elem' and n.data[1].a[0].op in ('seq', 'seqrep') and made & set(walk(n.data[1])) and \
                not any(n is g[0] for g in c.gens):
            rep.und('lookaheads', where(n), 'predictions are listed before they are recorded')
            return
    # ---- the set of lookaheads ------------------------------------------------------------------
    X = {}
    PLs = {}
    gens = []
    L2s = {}
    for n, it, pl, off in c.gens:
        la = la_value(it.la)
        pv = it.prod
        if pv.op != 'iv':
            kk, dd = lin(pv) if pv.op not in ('lv', 'opq') else (0, {})
            if len(dd) == 1 and list(dd)[0].op == 'iv' and list(dd.values())[0] == 1 and kk != 0:
                rep.viol('all productions', where(n), 'the productions are predicted from index %d on' % kk)
            elif pv.op == 'int' or not any(x.op in ('iv', 'lv', 'opq') for x in walk(pv)):
                rep.viol('all productions', where(n), 'only production %s is predicted' % show(pv)[:60])
            else:
                rep.und('all productions', where(n), 'production index %s' % show(pv)[:100])
            return
        PLs.setdefault(pv.a[0], []).append(n)
        o = own_la(la, I0)
        if la is NONE:
            gens.append((n, it, 'none', None, None))
        elif o == 'opt' and it.la is la:
            gens.append((n, it, 'own', None, None))
        elif o == 'tok' and it.la is not la:
            gens.append((n, it, 'owntok', None, None))
        elif la.op == 'elem' and la.a[0].op in ('setseq',) and la.a[1].op == 'iv':
            x = G.root(la.a[0].a[0])
            X.setdefault(x, []).append(n)
            L2 = la.a[1].a[0]
            L2s.setdefault(L2, []).append(n)
            gens.append((n, it, 'set', x, L2))
        else:
            rs = payload(la)
            if rs is not None and owner(rs[1]) is not None or any(first_set(y) is not None for y in walk(la)):
                rep.und('lookaheads', where(n), 'predictions made inside the scan: %s' % show(la)[:120])
                return
            if any(x.op in ('lv', 'opq', 'seqrep', 'iv') for x in walk(la)):
                rep.und('lookaheads', where(n), show(la)[:150])
                return
            rep.viol('lookaheads', where(n), 'prediction with lookahead %s' % show(it.la)[:150])
            return
    if len(X) != 1:
        if not X:
            rep.und('lookaheads', where(c.gens[0][0]), 'no set of lookaheads')
        elif not remembered(rep, G, I0, X) and not dropped(rep, G, I0, gens, end):
            rep.und('lookaheads', where(c.gens[0][0]), 'several sets of lookaheads: %s' % ' ; '.join(show(x) for x in X))
        return
    X = list(X)[0]
    # sets that are collected first and then copied into it
    XS, passed = [X], set()
    use = lambda m: m.kind in ('ins', 'push') and any(m is g[0] for g in c.gens)
    for Y in XS:
        from_ = {}
        for n in G.nodes:
            if n.kind != 'ins' or G.root(n.data[0]) is not Y:
                continue
            k = la_value(n.data[1])
            if k.op == 'elem' and k.a[0].op == 'setseq' and k.a[1].op == 'iv' and first_set(k.a[0].a[0]) is None:
                Z = G.root(k.a[0].a[0])
                if Z.op in ('new', 'newset') and Z is not Y:
                    from_.setdefault(Z, []).append((n, k.a[1].a[0]))
        for Z, lst in from_.items():
            ids, Ls = {n.id for n, L in lst}, {L for n, L in lst}
            done = lambda m: m.kind == 'exit' and m.data[0] in Ls and m.data[1] is not None
            zi = [m for m in G.nodes if m.kind == 'ins' and G.root(m.data[0]) is Z]
            skips = [h for L in Ls for h in G.hdrs.get(L, []) if path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, lambda m: m.id in ids or m.kind == 'exit' and m.data[0] == L)]
            if skips or any(path(m, use, done) for m in zi):
                rep.und('lookaheads', where(lst[0][0]), 'copied from %s' % show(Z)[:100])
                return
            passed |= ids
            if Z not in XS:
                XS.append(Z)
    XS = set(XS)
    xins = [n for n in G.nodes if n.kind == 'ins' and G.root(n.data[0]) in XS and n.id not in passed]
    foreign = [n for n in G.nodes if n.kind in ('extend', 'store') and n.kind == 'extend' and n.data and isinstance(n.data[0], T) and G.root(n.data[0]) in XS]
    for n in foreign:
        rep.und('lookaheads', where(n), 'extended by %s' % show(n.data[1])[:100])
    if foreign:
        return
    # fresh for every examined item
    for n in xins:
        p = path(hw, lambda m: m is n, lambda m: m.kind in ('new', 'clear') and G.root(m.data[0]) is G.root(n.data[0]))
        R.none(p, 'fresh lookaheads', where(n), 'collected anew for each item', 'lookaheads of one item leak into another')
    # what is inserted
    own_ev = {}
    term_ins = []
    copies = {}
    for n in xins:
        k = la_value(n.data[1])
        pl = payload(k)
        o = own_la(k, I0)
        if o:
            own_ev[n.id] = ('tok' if o == 'tok' else 'opt')
            continue
        if n.data[1] is NONE:
            own_ev[n.id] = 'none'
            continue
        if pl is not None:
            ow = owner(pl[1])
            good = pl[0] == 'Terminal' and ow is not None and ow[0] is I0 and any(pl[1].key() == z[1].key() for zs in suf.values() for z in zs)
            rep.check(good, 'justified lookahead', where(n), show(k)[:150], 'adds %s' % show(k)[:150])
            term_ins.append(n)
            continue
        if k.op == 'elem' and k.a[0].op == 'setseq' and first_set(k.a[0].a[0]) is not None:
            j = payload(first_set(k.a[0].a[0]))
            good = j is not None and j[0] == 'NonTerminal' and owner(j[1]) is not None and owner(j[1])[0] is I0 and \
                any(j[1].key() == z[1].key() for zs in suf.values() for z in zs)
            rep.check(good, 'justified lookahead', where(n), show(k)[:150], 'adds an element of %s' % show(k.a[0].a[0])[:150])
            if k.a[1].op == 'iv':
                copies.setdefault(k.a[1].a[0], []).append((n, j[1].key() if j else None))
            continue
        if any(x.op in ('lv', 'opq', 'res') for x in walk(k)) and not any(x is I0 for x in walk(k)):
            rep.und('justified lookahead', where(n), show(k)[:150])
            return
        rep.viol('justified lookahead', where(n), 'adds %s' % show(k)[:150])
    for n, it, kind, x, L2 in gens:
        if kind in ('none', 'own', 'owntok'):
            own_ev[n.id] = {'none': 'none', 'own': 'opt', 'owntok': 'tok'}[kind]
    own = lambda m: m.id in own_ev
    gen_ids = {g[0].id for g in gens}
    gen = lambda m: m.id in gen_ids
    none_cond = lambda m: m.kind == 'cond' and m.data[0].op == 'discr' and own_la(m.data[0].a[0], I0) == 'opt' and m.data[1] == frozenset(['None'])
    some_cond = lambda m: m.kind == 'cond' and m.data[0].op == 'discr' and own_la(m.data[0].a[0], I0) == 'opt' and m.data[1] == frozenset(['Some'])
    # own lookahead only when the whole rest can be empty
    for n in G.nodes:
        if n.id in own_ev:
            p = path(hw, lambda m: m is n, lambda m: fullx(m))
            R.none(p, 'own lookahead', where(n), 'only after the whole rest was passed', 'the context\'s lookahead is used although the rest cannot be empty')
            if own_ev[n.id] == 'none':
                p = path(hw, lambda m: m is n, none_cond)
                R.none(p, 'end of input', where(n), 'only when the item\'s lookahead is end of input', 'end of input is predicted although the item has a token as its lookahead')
    # ---- scan steps -------------------------------------------------------------------------------
    good_copies = {}
    for L, lst in copies.items():
        ids = {n.id for n, _ in lst}
        ok = True
        for h in G.hdrs.get(L, []):
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, lambda m: m.id in ids or (m.kind == 'exit' and m.data[0] == L))
            ok = R.none(p, 'copy', where(h), 'each token is copied', 'a token is skipped') and ok
        for x in G.exits.get(L, []):
            if x.data[1] is None and not G.only_panics(x):
                ok = rep.check(False, 'copy', where(x), '', 'copying a first set stops early')
            elif x.data[1] is not None and not (x.data[1].op == 'len' and x.data[1].a[0].op == 'setseq'):
                ok = rep.check(False, 'copy', where(x), '', 'copying stops after %s tokens' % show(x.data[1])[:80])
        if ok:
            good_copies[L] = lst

    def efact(val):
        def f(key):
            def g(m):
                if m.kind != 'cond' or m.data[1] is not val:
                    return False
                j = first_empty(m.data[0])
                pj = payload(j) if j is not None else None
                return pj is not None and pj[1].key() == key
            return g
        return f
    stop = lambda m: gen(m) or wl(m) or m.kind == 'ret'
    seen = set()
    for Ls, zs in suf.items():
        for n, s, v in zs:
            key = s.key()
            if v == frozenset(['Terminal']):
                seen.add('t')
                tins = lambda m: m.kind == 'ins' and G.root(m.data[0]) in XS and payload(la_value(m.data[1])) is not None and payload(la_value(m.data[1]))[1].key() == key
                p = path(n, lambda m: stop(m) or sl(m), tins)
                R.none(p, 'terminal follows', where(n), 'added', 'a token that follows the predicted non-terminal is not a lookahead')
                p = path(n, sl, lambda m: wl(m))
                R.none(p, 'scan stops at terminal', where(n), 'stops', 'symbols after a terminal are taken as lookaheads')
                p = path(n, own, lambda m: wl(m) or m.kind == 'ret')
                R.none(p, 'scan stops at terminal', where(n), 'own lookahead not used', 'the context\'s lookahead is used although a terminal follows')
            elif v == frozenset(['NonTerminal']):
                seen.add('n')

                def covered(m):
                    return m.kind == 'exit' and m.data[1] is not None and m.data[0] in good_copies and any(k == key for _, k in good_copies[m.data[0]])
                p = path(n, lambda m: stop(m) or sl(m), covered)
                R.none(p, 'first set follows', where(n), 'the whole first set is added', 'the first set of a following non-terminal is not added')
                et, ef = efact(True)(key), efact(False)(key)
                p = path(n, lambda m: sl(m) or own(m), lambda m: et(m) or wl(m))
                R.none(p, 'past nullable only', where(n), 'later symbols only after a nullable one', 'symbols after a non-terminal that cannot be empty are taken as lookaheads')
                p = path(n, stop, lambda m: ef(m) or sl(m))
                R.none(p, 'past nullable', where(n), 'a nullable symbol is passed', 'the symbols after a nullable non-terminal are ignored')
            elif len(v) > 1:
                rep.und('suffix', where(n), 'kind not decided')
    if 't' not in seen or 'n' not in seen:
        rep.viol('suffix', where(nx[0][0]), 'not every kind of following symbol is handled')
    # each iteration of the scan looks at its symbol
    for Ls, zs in suf.items():
        ids = {z[0].id for z in zs}
        for h in G.hdrs.get(Ls, []):
            p = path(h, lambda m: stop(m) or (m.kind == 'hdr' and m.data[0] == Ls), lambda m: m.id in ids or fullx(m))
            R.none(p, 'scan step', where(h), 'each symbol is looked at', 'a following symbol is skipped')

    # ---- production loops ------------------------------------------------------------------------
    KS0 = {G.root(g[0].data[0]) for g in gens if g[0].kind == 'ins'}

    def there(ids):
        """Decisions that a prediction made by one of these is in the set already."""
        ts = {g[1].term for g in gens if g[0].id in ids}
        return {n.id for n in G.nodes if n.kind == 'cond' and n.data[0].op == 'has' and n.data[1] is True and n.data[0].a[1] in ts and G.root(n.data[0].a[0]) in KS0}

    # production loops that pair productions with the collected lookaheads, by which of the two loops is outside
    prod_out, la_out = set(), {}
    for n, it, kind, x, L2 in gens:
        if kind == 'set':
            PL = it.prod.a[0]
            if PL in n.loops and L2 in n.loops and n.loops.index(L2) < n.loops.index(PL):
                la_out.setdefault(L2, {}).setdefault(PL, set()).add(n.id)
            else:
                prod_out.add(PL)

    def full_copy_of_X(L2):
        ids = {n.id for n in L2s[L2]}
        ok = True
        turns = {}
        for PL, own_ids in la_out.get(L2, {}).items():
            cover = own_ids | there(own_ids)
            turns[PL] = True
            for h in G.hdrs.get(PL, []):
                if L2 not in h.loops:
                    continue
                p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == PL, lambda m: m.id in cover or (m.kind == 'exit' and m.data[0] == PL))
                ok = R.none(p, 'each lookahead', where(h), 'a prediction for each production', 'a production is predicted without all lookaheads') and ok
        if turns:
            ids = {n.id for n in L2s[L2] if not any(n.id in y for y in la_out[L2].values())} | {x.id for PL in turns for x in G.exits.get(PL, []) if x.data[1] is not None}
        else:
            ids |= there(ids)
        for h in G.hdrs.get(L2, []):
            # pushing without inserting etc. is judged separately
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == L2, lambda m: m.id in ids or (m.kind == 'exit' and m.data[0] == L2))
            ok = R.none(p, 'each lookahead', where(h), 'a prediction for each lookahead', 'a lookahead is skipped') and ok
            p = path(h, lambda m: m.kind == 'ins' and G.root(m.data[0]) in XS, lambda m: wl(m))
            ok = R.none(p, 'lookaheads complete', where(h), 'all lookaheads are known before predicting', 'lookaheads are added after predictions were made') and ok
        for x in G.exits.get(L2, []):
            if x.data[1] is None:
                if not G.only_panics(x):
                    ok = rep.check(False, 'each lookahead', where(x), '', 'the loop over the lookaheads stops early')
            else:
                t = x.data[1]
                good = t.op == 'len' and t.a[0].op == 'setseq' and G.root(t.a[0].a[0]) is X
                ok = rep.check(good, 'each lookahead', where(x), show(t)[:100], 'the loop over the lookaheads ends at %s' % show(t)[:100]) and ok
        return ok
    goodL2 = {L for L in L2s if full_copy_of_X(L)}
    for PL in PLs:
        for x in G.exits.get(PL, []):
            t = x.data[1]
            if t is None:
                rep.check(G.only_panics(x), 'all productions', where(x), '', 'the loop over the productions stops early')
                continue
            q = fld(t.a[0], 'productions', 'NonTerminal') if t.op == 'len' else None
            at = nt_at(q) if q is not None else None
            good = at is not None and any(at[1] is g[1].nt for g in gens)
            rep.check(good, 'all productions', where(x), show(t)[:120], 'the loop over the productions ends at %s' % show(t)[:120])
        for h in G.hdrs.get(PL, []):
            p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] == PL) or wl(m), lambda m: (m.kind == 'exit' and m.data[0] in goodL2 and m.data[1] is not None)
                     or (m.kind == 'exit' and m.data[0] == PL))
            if PL in prod_out:
                R.none(p, 'lookaheads used', where(h), 'each production is paired with every lookahead', 'a production is predicted without all lookaheads')
    # every expected non-terminal is expanded
    pl_hdr = lambda m: m.kind == 'hdr' and m.data[0] in prod_out or m.kind == 'exit' and m.data[0] in la_out and m.data[0] in goodL2 and m.data[1] is not None
    for n, s, v in nx:
        if v == frozenset(['NonTerminal']):
            p = path(n, end, pl_hdr)
            R.none(p, 'expanded', where(n), 'every expected non-terminal is expanded', 'an expected non-terminal is not expanded')
    # own lookahead is passed on
    n_iter = {}
    for PL in PLs:
        ids = {g[0].id for g in gens if g[2] in ('none', 'own') and g[1].prod.a[0] == PL}
        ok = bool(ids)
        ids |= there(ids)
        # a loop with a fixed number of turns that makes the prediction in every turn
        for n in G.nodes:
            if n.kind == 'exit' and n.data[1] is not None and n.data[1].op == 'int' and n.data[1].a[0] > 0 and PL in n.loops and \
                    all(path(h, lambda m: m.kind == 'hdr' and m.data[0] == n.data[0], lambda m: m.id in ids or m.kind == 'exit' and m.data[0] == n.data[0]) is None
                        for h in G.hdrs.get(n.data[0], [])):
                ids.add(n.id)
        for h in G.hdrs.get(PL, []):
            if path(h, lambda m: m.kind == 'hdr' and m.data[0] == PL, lambda m: m.id in ids or (m.kind == 'exit' and m.data[0] == PL)) is not None:
                ok = False
        n_iter[PL] = ok
    handled_none = lambda m: (m.kind == 'exit' and m.data[0] in n_iter and n_iter[m.data[0]] and m.data[1] is not None) or \
        (m.id in own_ev and own_ev[m.id] in ('opt', 'none') and m.kind == 'ins' and G.root(m.data[0]) in XS)
    handled_some = lambda m: (m.id in own_ev and own_ev[m.id] in ('tok', 'opt') and m.kind == 'ins' and G.root(m.data[0]) in XS) or \
        (m.kind == 'exit' and m.data[0] in n_iter and n_iter[m.data[0]] and m.data[1] is not None and
         any(g[2] == 'own' and g[1].prod.a[0] == m.data[0] for g in gens))
    for n in G.nodes:
        if fullx(n):
            p = path(n, end, lambda m: handled_none(m) or some_cond(m) or handled_some(m))
            R.none(p, 'own lookahead passed', where(n), 'end of input is passed on', 'end of input is not predicted although the whole rest can be empty')
            p = path(n, end, lambda m: handled_some(m) or none_cond(m))
            R.none(p, 'own lookahead passed', where(n), 'the lookahead is passed on', 'the context\'s lookahead is not predicted although the whole rest can be empty')

    # ---- every item is examined --------------------------------------------------------------------
    nxids = {n.id for n, _, _ in nx}
    KS = set(G.root(g[0].data[0]) for g in gens if g[0].kind == 'ins')
    if len(KS) > 1:
        rep.und('closure set', where(c.gens[0][0]), 'several sets')
        return
    KS = list(KS)[0] if KS else None
    done = lambda m: m.kind == 'cond' and m.data[0].op == 'has' and m.data[1] is True and m.data[0].a[1] is I0
    entry = hw
    done_ok = KS is None
    p = path(entry, lambda m: end(m) and m.kind != 'exit', lambda m: m.id in nxids or complete_val(G, m, I0) is True or (m.kind == 'exit' and m.data[0] == WL) or (done_ok and done(m)))
    R.none(p, 'examined', where(hw[0]) if hw else ROOT, 'every item taken from the work list is examined', 'an item is dropped without being examined')
    base = I0
    from_wl = base.op == 'elem' and base.a[0].op in ('lv', 'old', 'slice', 'seqlv')
    from_set = base.op == 'elem' and base.a[0].op == 'setseq'
    by_val = {}
    for g in gens:
        by_val.setdefault(g[1].term, []).append(g[0])
    if from_wl:
        for v, ns in by_val.items():
            inss = [n for n in ns if n.kind == 'ins']
            push = lambda m: m.kind == 'push' and m.data[1] is v
            hasT = lambda m: m.kind == 'cond' and m.data[0].op == 'has' and m.data[0].a[1] is v and m.data[1] is True
            for n in inss:
                if any(f.op == 'has' and f.a[1] is v and val is True for f, val in n.facts.items()):
                    rep.ok('followed up', where(n), 'known member')
                    continue
                inner = n.loops[-1]
                st = [h for h in G.nodes if h.kind == 'hdr' and h.data[0] == inner]
                endi = lambda m: m.kind in ('hdr', 'ret')
                before = path(st, lambda m: m is n, push)
                after = path(n, endi, lambda m: push(m) or hasT(m))
                if before is None:
                    rep.ok('followed up', where(n), 'pushed before')
                else:
                    R.none(after, 'followed up', where(n), 'every new prediction is put on the work list', 'a new prediction is not expanded')
            if not inss:
                p = path(entry, end, lambda m: (m.kind == 'ins' and m.data[1] is I0) or done(m) or (m.kind == 'exit' and m.data[0] == WL))
                R.none(p, 'recorded', where(ns[0]), 'every item taken from the work list is recorded', 'a prediction is not recorded in the state')
        # leaves only when the work list is empty
        wlroot = G.root(base.a[0])
        for x in G.exits.get(WL, []):
            if x.data[1] is not None:
                rep.ok('worklist emptied', where(x), show(x.data[1])[:80])
                continue
            if G.only_panics(x):
                rep.ok('worklist emptied', where(x), 'fails')
                continue
            emp = any(f.op == 'gt0' and f.a[0].op == 'len' and v is False and G.root(f.a[0].a[0]) is wlroot or
                      f.op == 'gt0' and f.a[0].op == 'len' and v is False and contains(base, f.a[0]) or
                      f.op == 'gt0' and v in (True, False) and base.a[1].op == 'iv' and past_end(G, f.a[0] if v else sub(INT(1), f.a[0]), base.a[1], wlroot)
                      for f, v in x.facts.items())
            rep.check(emp, 'worklist emptied', where(x), 'left when the work list is empty', 'the expansion stops although the work list is not empty')
        # starts with every item of the set
        src = base.a[0]
        while src.op in ('slice', 'old'):
            src = G.unold(src) if src.op == 'old' else src.a[0]
        init = G.sym.get(src)
        if init is not None:
            c.init = init
            if init.op == 'setseq':
                rep.check(KS is None or G.root(init.a[0]) is KS, 'initial worklist', where(hw[0]), show(init)[:100],
                          'the work list starts with %s' % show(init)[:100])
            elif init is EMPTY:
                rep.viol('initial worklist', where(hw[0]), 'the work list starts empty')
            else:
                rep.und('initial worklist', where(hw[0]), show(init)[:100])
        else:
            rep.und('initial worklist', where(hw[0]) if hw else ROOT, show(base)[:100])
    elif from_set:
        rep.und('followed up', where(c.gens[0][0]), 'fixpoint over the set')
    else:
        rep.und('followed up', where(c.gens[0][0]), 'items come from %s' % show(base)[:100])


def dropped(rep, G, I0, gens, end):
    """Tokens that can start the rest are collected in one set, but the predictions are made from another that is empty at first
    and only receives the item's own lookahead.  True when a violation was reported."""
    sets = {}
    for g in gens:
        if g[2] == 'set':
            sets.setdefault(g[3], []).append(g[0])
    def own(n):
        return n.data[1] is NONE or own_la(la_value(n.data[1]), I0) or any(f.op == 'discr' and own_la(f.a[0], I0) and v == frozenset(['None']) for f, v in n.facts.items())
    puts = {x: [n for n in G.nodes if n.kind in ('ins', 'push', 'extend', 'store') and n.data and isinstance(n.data[0], T) and G.root(n.data[0]) is x] for x in sets}
    for Y in sets:
        if Y.op != 'new' or any(n.kind != 'ins' or not own(n) for n in puts[Y] if not empty_flag(n)):
            continue
        for Z in sets:
            if Z is Y:
                continue
            uses = {n.id for n in sets[Z]}
            over = lambda m: m.id in uses or m.kind == 'exit' and m.data[1] is not None and any(x.op == 'setseq' and G.root(x.a[0]) is Z for x in walk(m.data[1]))
            zused = lambda m: over(m) or end(m)
            for n in puts[Z]:
                if n.kind != 'ins' or own(n):
                    continue
                for y in sets[Y]:
                    if path(n, lambda m: m is y, zused) is not None and path(y, end, over) is not None:
                        rep.viol('lookaheads', where(y), 'the tokens that can start the rest (collected at %s) are not predicted' % where(n))
                        return True
    return False


def empty_flag(n):
    """The mark that a set holds the empty word, not one of its tokens."""
    return n.kind == 'store'


def telling(key):
    """The values that a key tells; the symbol found at a place does not tell the place."""
    out, todo = [], [key]
    while todo:
        x = todo.pop()
        if x.op in ('tuple', 'agg', 'clone', 'cast'):
            todo += [y for y in children(x) if hasattr(y, 'op')]
            continue
        y = x
        while y.op == 'field' and y.a[3] != 'symbol' and y.a[0].op == 'field':
            y = y.a[0]
        if not (y.op == 'field' and y.a[3] == 'symbol' and y.a[0].op == 'elem' and not any(z.op == 'iv' for z in walk(y.a[0].a[1]))):
            out += list(walk(x))
    return out


def remembered(rep, G, I0, X):
    """The lookaheads of an earlier item, kept in a map: what they are found by tells apart all that they depend on.
    True when a violation was reported."""
    parts = {'the non-terminal': ('non_terminal_idx',), 'the production': ('production_idx',), 'the place of the dot': ('cursor',)}
    hit = False
    for x in X:
        g = next((y for y in walk(x) if y.op == 'get' and y.a[0].op in ('newmap', 'new')), None)
        if g is None:
            continue
        M, key = G.root(g.a[0]), g.a[1]
        if any(y is I0 for y in ([key] + (list(key.a) if key.op == 'tuple' else []))) or any(y.op in ('opq', 'lv') and y is not I0 and not any(z is y for z in walk(I0)) for y in walk(key)):
            continue
        told = telling(key)
        has = {nm for nm in ('non_terminal_idx', 'production_idx', 'cursor', 'lookahead') if any(fld(y, nm, 'LR1Item') is I0 for y in told)}
        kept = [n for n in G.nodes if n.kind == 'ins' and G.root(n.data[0]) is M and n.data[1] is key and isinstance(n.data[2], T)]
        for n in kept:
            ys = [y for y in X if any(z is y for z in walk(n.data[2]))]
            owns = [m for m in G.nodes if m.kind == 'ins' and G.root(m.data[0]) in ys and own_la(la_value(m.data[1]), I0)]
            lack = [k for k, v in parts.items() if not has & set(v)]
            if not lack and 'lookahead' not in has and any(path(m, lambda q: q is n, lambda q: q.kind in ('new', 'clear') and G.root(q.data[0]) in ys) for m in owns):
                lack = ['the lookahead']
            if lack:
                rep.viol('lookaheads', where(n), 'the lookaheads found for one item are used for others that differ in %s' % ' and '.join(lack))
                hit = True
                break
    return hit
