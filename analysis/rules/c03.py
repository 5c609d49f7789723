"""Flow rules on the event graph of generate_lr1_automaton: every state and symbol is visited, every item expecting the symbol is
advanced by one, the transition to the state made of exactly those items is recorded, states are shared only on equality of
whole item sets (identity of the map key and of the comparison it uses), and new states are visited in turn."""
import re
from lr import *
import re
import rules.c02 as c02

ROOT = 'generate_lr1_automaton'


def sym_agg(P, t):
    """Symbol::K(x) -> (K, x)"""
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Symbol' and len(t.a[2]) == 1:
        return t.a[1], t.a[2][0]
    return None


def states_elem(G, t):
    """t = <states>[s].items -> (root of states, s)"""
    b = fld(t, 'items', 'LR1State')
    if b is not None and b.op == 'elem':
        return G.root(b.a[0]), b.a[1]
    return None


def loc_of(ptr):
    return ptr.a[0] if ptr.op == 'ptr' else None


def leaf_is(t, loc):
    """t is a loop-carried value of the variable at loc."""
    while t.op in ('slice', 'old', 'setelem'):
        t = t.a[0] if t.op != 'old' else t.a[0] if isinstance(t.a[0], T) else t
        if t.op == 'old':
            break
    if t.op in ('lv', 'seqlv') and any(isinstance(x, T) and x.op == 'leaf' and x.a[0] == loc[0] for x in t.a):
        return True
    return False


def comparisons(ctx, rep):
    """Comparison of items is by all parts."""
    P = ctx.P
    for ty in ('LR1Item', 'Symbol', 'NonTerminalIdx', 'ProductionIdx', 'TerminalIdx', 'StateIdx'):
        adts = [k for k in P.adts if k.split('::')[-1] == ty and k.split('::')[0] in ('lr1', 'grammar', 'lr_common')]
        if len(adts) != 1:
            continue
        adt = adts[0]
        for tr, m in (('core::cmp::PartialEq', 'eq'), ('core::cmp::Ord', 'cmp'), ('core::cmp::PartialOrd', 'partial_cmp')):
            if (tr, adt) in P.derived_impls:
                rep.ok('comparison', adt, '%s is derived' % tr.split('::')[-1])
                continue
            key = P.impls.get((tr, adt, m))
            if key is None:
                continue
            try:
                I = ctx.run(key)
            except Undecided as e:
                rep.und('comparison', adt, str(e))
                continue
            terms = set()
            for n in I.live_nodes:
                for d in n.data:
                    if isinstance(d, T):
                        terms |= set(walk(d))
            variants = P.adts[adt]['variants']
            for v in variants:
                for f in v['fields']:
                    for par in (0, 1):
                        if any(t.op == 'field' and t.a[3] == f['name'] and t.a[0].op == 'param' and t.a[0].a[0] == par for t in terms):
                            continue
                        bare = any(t.op != 'field' and any(y.op == 'param' and y.a[0] == par for y in children(t)) for t in terms) or \
                            any(isinstance(d, T) and d.op == 'param' for n in I.live_nodes for d in n.data)
                        if bare or len(variants) > 1 or len(v['fields']) == 1:
                            rep.und('comparison', adt, '%s::%s' % (adt, m))
                            continue
                        rep.viol('comparison', where_body(P, key), '%s of %s ignores %s' % (m, ty, f['name']))


def where_body(P, key):
    b = P.bodies[key]
    return str(b.span).replace('/repo/', '')


def check(ctx, rep, tier):
    P = ctx.P
    comparisons(ctx, rep)
    I = ctx.run(ROOT)
    G = Graph(I)
    R = Rules(rep, G)
    rep.note('event graph nodes', len(G.nodes))
    item_fields(P)
    G.alias, G._root = G.copies(), {}
    # ---- the result ----------------------------------------------------------------------
    ST = None
    MAPNT = None
    for r in I.rets:
        v = r.data[0]
        if v.op == 'agg' and v.a[0] == 'tuple' and len(v.a[2]) == 2 and v.a[2][0].op == 'agg' and v.a[2][0].a[0].endswith('LR1Automaton'):
            ST = True
            MAPNT = G.root(v.a[2][1])
        else:
            raise Undecided('unexpected result')
    if ST is None:
        rep.viol('result', ROOT, 'the function never returns')
        return
    # ---- advanced items ---------------------------------------------------------------------
    adv = {}
    cl = c02.closures(ctx, rep, I, G)
    for n in G.nodes:
        if n.kind not in ('ins', 'push'):
            continue
        it = as_item(P, n.data[1])
        if it is None:
            continue
        J = fld(it.nt, 'non_terminal_idx', 'LR1Item')
        if J is None:
            continue
        rep.check(fld(it.prod, 'production_idx', 'LR1Item') is J, 'advanced item', where(n), 'same production', 'the production changes: %s' % show(it.prod)[:120])
        rep.check(own_la(it.la, J) == 'opt', 'advanced item', where(n), 'same lookahead', 'the lookahead changes: %s' % show(it.la)[:120])
        rep.check(it.cursor is add(cursor_of(J), INT(1)), 'advanced item', where(n), 'one symbol further', 'the position becomes %s' % show(it.cursor)[:120])
        adv.setdefault((J, n.data[0]), []).append((n, it))
    if not adv:
        bad = [n for n in G.nodes if n.kind in ('ins', 'push') and n.data[1].op in ('elem', 'field') and (n.data[1].op == 'elem') and
               n.data[1].a[0].op == 'setseq' and states_elem(G, n.data[1].a[0].a[0])]
        for n in bad:
            rep.viol('advanced item', where(n), 'an item is carried over without being advanced')
        if bad:
            return
        raise Undecided('no advanced items recognised')
    sites = []
    kinds = {}
    for (J, KSt), lst in adv.items():
        n0, it = lst[0]
        if not (J.op == 'elem' and J.a[0].op == 'setseq' and J.a[1].op == 'iv' and states_elem(G, J.a[0].a[0])):
            rep.und('advanced item', where(n0), 'items come from %s' % show(J)[:120])
            return
        root, s = states_elem(G, J.a[0].a[0])
        for n, it in lst:
            kind = x = None
            pl = None
            for f, v in n.facts.items():
                if f.op == 'discr' and isinstance(v, frozenset) and len(v) == 1:
                    y = sym_at(f.a[0])
                    if y is not None and owner(y) and owner(y)[0] is J and owner(y)[1] is INT(0):
                        kind = list(v)[0]
            for f, v in n.facts.items():
                if f.op == 'eq0' and v is True:
                    c, d = lin(f.a[0])
                    ps = [k for k in d if payload(k) is not None and owner(payload(k)[1]) and owner(payload(k)[1])[0] is J]
                    if c == 0 and len(d) == 2 and len(ps) == 1:
                        o = [k for k in d if k is not ps[0]][0]
                        if d[o] == -d[ps[0]]:
                            x, pl = o, payload(ps[0])
            if x is None:
                if kind is not None and not any(f.op not in ('discr', 'gt0', 'eq0', 'has', 'eq', 'fits') for f in n.facts):
                    rep.viol('symbol match', where(n), 'items are advanced whatever symbol they expect')
                else:
                    rep.und('symbol match', where(n), 'not understood')
                return
            if pl[0] != kind or owner(pl[1])[1] is not INT(0):
                rep.viol('symbol match', where(n), 'compares %s' % show(pl[1].term)[:120])
                return
            rep.ok('symbol match', where(n), '%s(%s)' % (kind, show(x)[:60]))
            sites.append((n, it, J, root, s, kind, x))
    # ---- per (kind, symbol index) ------------------------------------------------------------------
    groups = {}
    for z in sites:
        groups.setdefault((z[5], z[6], G.root(z[0].data[0]), z[3], z[4]), []).append(z)
    rounds = set()
    state_loops = set()
    marks = {}
    sym_loops = {}
    for (kind, x, KS, root, s), zs in groups.items():
        if x.op != 'iv':
            rep.und('all symbols', where(zs[0][0]), 'symbol index %s' % show(x)[:100])
            return
        sym_loops.setdefault(x.a[0], kind)
        if s.op == 'lin':
            L = from_mark(rep, G, I, s, root, where(zs[0][0]))
            if L is None:
                return
            state_loops.add(L)
            marks[L] = sub(s, mk('iv', L))
            continue
        if s.op != 'iv':
            (rep.viol if s.op == 'int' else rep.und)('all states', where(zs[0][0]), 'state index %s' % show(s)[:100])
            return
        state_loops.add(s.a[0])
    for L, kind in sym_loops.items():
        want = 'terminals' if kind == 'Terminal' else 'non_terminals'
        for e in G.exits.get(L, []):
            t = e.data[1]
            if t is None:
                rep.check(G.only_panics(e), 'all symbols', where(e), 'fails', 'the loop over the symbols stops early')
                continue
            rep.check(t.op == 'len' and fld(t.a[0], want, 'Grammar') is not None, 'all symbols', where(e), show(t)[:80],
                      'the loop over the %s ends at %s' % (want, show(t)[:80]))
    for k in ('Terminal', 'NonTerminal'):
        if k not in sym_loops.values():
            rep.viol('all symbols', ROOT, 'no transitions on %ss' % k)
    by_root = set(g[3] for g in groups)
    if len(by_root) != 1:
        for n, it in initial(P, G):
            for e in G.exits.get(it.nt.a[0], []) if it.nt.op == 'iv' else []:
                if e.data[1] is None and not G.only_panics(e):
                    rep.viol('entry states', where(e), 'the search for entry points stops early')
        rep.und('states', ROOT, 'several state lists')
        return
    SR = list(by_root)[0]
    for L in state_loops:
        siv = mk('iv', L)
        for e in G.exits.get(L, []):
            t = e.data[1]
            if t is None:
                grow = any(f.op == 'gt0' and siv in lin(f.a[0])[1] and any(k.op == 'len' and G.root(k.a[0]) is SR and (c > 0) != e.facts[f]
                                                                            for k, c in lin(f.a[0])[1].items()) for f in e.facts)
                if grow:
                    rep.ok('all states', where(e), 'until no state is left')
                else:
                    rep.check(G.only_panics(e), 'all states', where(e), 'fails', 'the loop over the states stops early')
                continue
            if L in marks:
                t = add(t, marks[L])
            rep.check(t.op == 'len' and G.root(t.a[0]) is SR, 'all states', where(e), show(t)[:80], 'the loop over the states ends at %s' % show(t)[:80])
        for h in G.hdrs.get(L, []):
            for k in ('Terminal', 'NonTerminal'):
                ls = {l for l, kk in sym_loops.items() if kk == k}
                p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] == L),
                         lambda m: (m.kind == 'exit' and m.data[0] in ls and m.data[1] is not None) or (m.kind == 'exit' and m.data[0] == L))
                R.none(p, 'all symbols', where(h), 'each state is looked at for every %s' % k, 'a state is skipped')
    # ---- items --------------------------------------------------------------------------------------
    KSs = {}
    for (kind, x, KS, root, s), zs in groups.items():
        Lk = x.a[0]
        J = zs[0][2]
        JL = J.a[1].a[0]
        ids = {z[0].id for z in zs}
        if any(z[2] is not J for z in zs):
            rep.und('advanced item', where(zs[0][0]), 'several item loops')
            return

        def excused(m):
            if m.kind == 'exit' and m.data[0] == JL:
                return True
            if complete_val(G, m, J) is True:
                return True
            if m.kind == 'cond' and m.data[0].op == 'discr' and isinstance(m.data[1], frozenset) and kind not in m.data[1]:
                y = sym_at(m.data[0].a[0])
                return y is not None and owner(y) is not None and owner(y)[0] is J
            if m.kind == 'cond' and m.data[0].op == 'eq0' and m.data[1] is False:
                c, d = lin(m.data[0].a[0])
                return c == 0 and x in d and len(d) == 2 and any(payload(k) is not None and owner(payload(k)[1]) and owner(payload(k)[1])[0] is J for k in d)
            return False
        for h in G.hdrs.get(JL, []):
            if Lk not in h.loops:
                continue
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] in (JL, Lk), lambda m: m.id in ids or excused(m))
            R.none(p, 'every item', where(h), 'every item expecting the symbol is advanced', 'an item that expects the symbol is not advanced')
        for h in G.hdrs.get(Lk, []):
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == Lk, lambda m: m.kind == 'hdr' and m.data[0] == JL or m.kind == 'exit' and m.data[0] == Lk)
            if p is not None:
                cs = [m for m in p if m.kind == 'cond' and not (m.data[0].op == 'gt0' and x in lin(m.data[0].a[0])[1])]
                if any(threshold(m.data[0]) for m in cs):
                    rep.viol('all symbols', where(h), 'a %s is skipped beyond a number: %s' % (kind, show_path(p)[:300]))
                elif any(y.op in ('has', 'lv', 'opq', 'res', 'seqlv', 'setseq', 'get') or y.op == 'field' and y.a[3] == 'public' for m in cs for y in walk(m.data[0])):
                    rep.und('all symbols', where(h), 'a %s is skipped: %s' % (kind, show_path(p)[:300]))
                else:
                    rep.viol('all symbols', where(h), 'a %s is skipped: %s' % (kind, show_path(p)[:300]))
        for e in G.exits.get(JL, []):
            if e.data[1] is None:
                rep.check(G.only_panics(e), 'every item', where(e), 'fails', 'the loop over the items stops early')
            else:
                t = e.data[1]
                rep.check(t.op == 'len' and t.a[0] is J.a[0], 'every item', where(e), show(t)[:80], 'the loop over the items ends at %s' % show(t)[:80])
        # a fresh set per symbol
        hk = G.hdrs.get(Lk, [])
        for z in zs:
            p = path(hk, lambda m: m is z[0], lambda m: m.kind in ('new', 'clear') and G.root(m.data[0]) is KS)
            R.none(p, 'fresh item set', where(z[0]), 'collected anew for each symbol', 'items of one symbol leak into the state of another')
        # nothing else enters the set
        lv = set(hk[0].loops) if hk else set()
        for n in G.nodes:
            if n.kind in ('ins', 'push', 'extend') and isinstance(n.data[0], T) and n.data[0].op != 'ptr' and G.root(n.data[0]) is KS and Lk in n.loops:
                it = as_item(P, n.data[1])
                if n.id in ids or n.data[1].op == 'elem' and n.data[1].a[0].op == 'setseq' and G.root(n.data[1].a[0].a[0]) is KS:
                    continue
                if it is not None and payload(it.nt) is not None:
                    continue
                if any(n.data[1] is c.I for c in cl.values()):
                    continue
                (rep.und if it is None else rep.viol)('advanced item', where(n), 'also adds %s' % show(n.data[1])[:150])
        # ---- record -------------------------------------------------------------------------------------
        recs = []
        for n in G.nodes:
            if Lk not in n.loops:
                continue
            if n.kind == 'push' and n.data[1].op == 'agg' and len(n.data[1].a[2]) == 3:
                fs = n.data[1].a[2]
                sy = [f for f in fs if sym_agg(P, f)]
                if len(sy) == 1:
                    i = fs.index(sy[0])
                    recs.append((n, fs, i, sy[0]))
            elif n.kind == 'ins' and sym_agg(P, n.data[1]) and n.data[2] is not None and fld(n.data[0], 'goto', 'LR1State') is not None:
                b = fld(n.data[0], 'goto', 'LR1State')
                recs.append((n, (b.a[1] if b.op == 'elem' else b, n.data[1], n.data[2]), 1, n.data[1]))
        if not recs:
            rep.und('transition', where(zs[0][0]), 'transitions are recorded in another form')
            return
        for n, fs, i, sy in recs:
            k2, x2 = sym_agg(P, sy)
            rep.check(k2 == kind and x2 is x, 'transition', where(n), show(sy), 'recorded for %s, not for %s(%s)' % (show(sy), kind, show(x)))
            if i == 1:
                rep.check(fs[0] is s, 'transition', where(n), 'from the examined state', 'recorded for state %s' % show(fs[0])[:80])
            target(ctx, rep, G, R, I, n, fs[2] if i == 1 else fs[-1], KS, SR, Lk)
        recids = {r[0].id for r in recs}
        if any(contains(c.I, z[0].data[0]) for c in cl.values() for z in zs) and False:
            pass
        # the state is made of the closed set
        closed = [c for c in cl.values() if getattr(c, 'gens', None) and any(g[0].kind == 'ins' and G.root(g[0].data[0]) is KS for g in c.gens)]
        src = [e for e in G.exits.get(JL, []) if e.data[1] is not None and Lk in e.loops]
        def empty(m):
            if m.kind != 'cond' or m.data[0].op not in ('gt0', 'eq0'):
                return False
            c, d = lin(m.data[0].a[0])
            if len(d) != 1 or not all(y.op == 'len' and y.a[0].op == 'setseq' and G.root(y.a[0].a[0]) is KS for y in d):
                return False
            v = next(iter(d.values()))
            if m.data[0].op == 'eq0':
                return m.data[1] is True and c == 0
            return m.data[1] is False and v > 0 and c >= 0 or m.data[1] is True and v == -1 and c == 1
        p = path(src, lambda m: m.kind == 'ret' or (m.kind == 'hdr' and m.data[0] == Lk), lambda m: m.id in recids or empty(m))
        R.none(p, 'transition', where(src[0]) if src else ROOT, 'recorded whenever some item expects the symbol',
               'a transition is not recorded')
        if closed:
            for c in closed:
                wl = [d for d in c.conds if d[2] is INT(0)]
                WL = wl[0][0].loops[-1] if wl else None
                ok = lambda m: m.kind == 'exit' and m.data[0] == WL
                p = path(src, lambda m: m.id in recids, ok)
                R.none(p, 'closed', where(src[0]) if src else ROOT, 'the state is closed', 'a state is recorded without its closure')
        else:
            rep.und('closed', where(zs[0][0]), 'closure over another set')
        KSs[KS] = (kind, Lk)

    applied(ctx, rep, G, R, SR)
    new_rounds(ctx, rep, G, R, SR, state_loops, set(sym_loops), marks)
    entries(ctx, rep, G, R, I, SR, MAPNT, state_loops)
    rep.assumptions += ['std/fxhash collection operations behave as documented']


def threshold(t):
    """A size is compared with a number."""
    if t.op != 'gt0':
        return False
    c, ts = lin(t.a[0])
    return abs(c) > 1 and len(ts) == 1 and list(ts)[0].op == 'len'


def pushes(G, within=None):
    out = []
    for n in G.nodes:
        if n.kind == 'push' and n.data[1].op == 'agg' and n.data[1].a[0].endswith('LR1State'):
            out.append(n)
    return out


def items_of(P, t):
    j = P.field_index(t.a[0], '', 'items')
    return t.a[2][j] if j is not None else None


def target(ctx, rep, G, R, I, n, tgt, KS, SR, Lk):
    """The recorded target is the state made of KS."""
    P = ctx.P
    got = None
    t = tgt
    if t.op == 'field' and t.a[2] == 'Some' and t.a[0].op == 'get':
        got = t.a[0]
    elif t.op == 'get':
        got = t
    if got is not None:
        k = key_set(G, got.a[1], KS)
        if k is True:
            rep.ok('sharing', where(n), 'an existing state with the same items')
        elif k is None and got.a[1].op == 'opq' and re.search(r'hash(32|64)?$|::hash_one$|::finish$', str(got.a[1].a[0])):
            rep.viol('sharing', where(n), 'an existing state is reused by comparing only a hash: %s' % show(got.a[1])[:100])
        elif k is None:
            rep.und('sharing', where(n), 'looked up by %s' % show(got.a[1])[:120])
        else:
            rep.viol('sharing', where(n), 'an existing state is reused by comparing only %s' % k)
        return
    r = searched(G, n, tgt, KS, SR, Lk)
    if r is True:
        rep.ok('sharing', where(n), 'an existing state with the same items, found by comparing them')
        return
    if r is not None:
        rep.viol('sharing', where(n), r)
        return
    # a new state
    inner = n.loops[-1]
    st = [h for h in G.nodes if h.kind == 'hdr' and h.data[0] == inner]
    endi = lambda m: m.kind in ('ret',) or (m.kind == 'hdr' and m.data[0] in n.loops)
    ps = [m for m in pushes(G) if Lk in m.loops]
    if not ps:
        rep.und('new state', where(n), 'target %s' % show(tgt)[:100])
        return
    pid = {m.id for m in ps}

    def around(ev, rule, bad):
        before = path(st, lambda m: m is n, ev)
        if before is None:
            rep.ok(rule, where(n))
            return
        after = path(n, endi, ev)
        R.none(after, rule, where(n), '', bad)
    around(lambda m: m.id in pid, 'new state', 'a transition leads to a state that is not created')
    for m in ps:
        its = items_of(P, m.data[1])
        rep.check(its is not None and G.root(its) is KS, 'new state', where(m), 'made of the computed items', 'the new state is made of %s' % show(its)[:120])
    mi = [m for m in G.nodes if m.kind == 'ins' and m.data[2] is not None and Lk in m.loops and m.data[2] is tgt]
    for m in mi:
        k = key_set(G, m.data[1], KS)
        if k is True:
            rep.ok('sharing', where(m), 'registered by its whole item set')
        elif k is None:
            rep.und('sharing', where(m), 'registered by %s' % show(m.data[1])[:120])
        else:
            rep.viol('sharing', where(m), 'states are registered by %s only' % k)
    mids = {m.id for m in mi}
    mmap = [m for m in G.nodes if m.kind == 'ins' and m.data[2] is not None and Lk in m.loops and key_set(G, m.data[1], KS) is True and m.id not in mids]
    for m in mmap:
        rep.viol('state index', where(m), 'registered as %s but the transition leads to %s' % (show(m.data[2])[:60], show(tgt)[:60]))
    by_search = [m for m in G.nodes if m.kind == 'cond' and m.data[0].op == 'eq' and m.data[1] is False and Lk in m.loops and compared(G, m.data[0], KS)]
    if not mmap and not (not mi and by_search):
        around(lambda m: m.id in mids, 'new state registered', 'a new state is not registered')
    for m in ps:
        index_ok(rep, G, I, m, tgt, SR)


def compared(G, a, KS):
    """a compares KS with the items of a listed state -> that state."""
    for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
        if isinstance(x, T) and isinstance(y, T) and G.root(x) is KS:
            b = fld(y, 'items', 'LR1State')
            if b is not None and b.op == 'elem':
                return b
    return None


def searched(G, n, tgt, KS, SR, Lk):
    """n is reached when a listed state has the items of KS: True when tgt is its number, text when it is not."""
    for f, v in n.facts.items():
        if f.op != 'eq' or v is not True:
            continue
        b = compared(G, f, KS)
        if b is None:
            continue
        rest = sub(tgt, b.a[1])
        if G.root(b.a[0]) is SR:
            if rest is INT(0):
                return True
            if rest.op == 'int':
                return 'the number of another state is recorded: %s' % show(tgt)[:80]
            continue
        if rest.op == 'len' and G.root(rest.a[0]) is SR and any(m.kind == 'push' and (G.root(m.data[2]) is G.root(b.a[0])) for m in pushes(G) if Lk in m.loops):
            return True
        c, d = lin(rest)
        if c and len(d) == 1 and list(d)[0].op == 'len' and G.root(list(d)[0].a[0]) is SR:
            return 'the number of another state is recorded: %s' % show(tgt)[:80]
    return None


def key_set(G, k, KS):
    """True: k is the item set itself; string: what is compared instead; None: not understood."""
    if G.root(k) is KS:
        return True
    if k.op in ('new', 'newset', 'newmap') or k.op == 'setseq':
        r = G.root(k if k.op != 'setseq' else k.a[0])
        if r is KS:
            return True
        vals = [n.data[1] for n in G.nodes if n.kind == 'ins' and G.root(n.data[0]) is r]
        if not vals:
            return None
        for v in vals:
            if v.op == 'elem':
                return None
            names = set(x.a[3] for x in walk(v) if x.op == 'field' and (x.a[1] or '').split('::')[-1] == 'LR1Item')
            miss = {'non_terminal_idx', 'production_idx', 'cursor', 'lookahead'} - names
            if miss and names:
                return 'items without their %s' % ', '.join(sorted(miss))
        return None
    parts_ = [x for x in walk(k) if x.op == 'seqrep']
    if parts_ and not any(x.op in ('opq', 'res') for x in walk(k)):
        names = set()
        whole = False
        for x in parts_:
            for fd, al in x.a[2]:
                for q in al:
                    if isinstance(q[1], T):
                        if q[1].op == 'elem':
                            whole = True
                        names |= set(y.a[3] for y in walk(q[1]) if y.op == 'field' and (y.a[1] or '').split('::')[-1] == 'LR1Item')
        miss = {'non_terminal_idx', 'production_idx', 'cursor', 'lookahead'} - names
        if not whole and names and miss:
            return 'items without their %s' % ', '.join(sorted(miss))
    return None


def index_ok(rep, G, I, push, F, SR):
    """F is the number the state pushed by `push` gets."""
    old = push.data[2]
    lst = length(old)
    onST = G.root(old) is SR
    if onST:
        if F is lst:
            return rep.ok('state index', where(push), show(F)[:80])
        c, d = lin(sub(F, lst))
        if not d:
            return rep.viol('state index', where(push), 'the new state gets number %s but is referred to as %s' % (show(lst)[:80], show(F)[:80]))
    c, d = lin(F)
    ls = [k for k in d if k.op == 'len' and G.root(k.a[0]) is SR]
    if len(ls) == 1 and not onST:
        rest = sub(F, ls[0])
        if rest is lst:
            return rep.ok('state index', where(push), show(F)[:80])
        if not lin(sub(rest, lst))[1]:
            return rep.viol('state index', where(push), 'off by %s' % show(sub(rest, lst)))
    # a counter kept in step with the list of new states
    if F.op == 'lv':
        leaf = F.a[1].a if F.a[1].op == 'leaf' else None
        loc = loc_of(push.data[0])
        r = counter(rep, G, I, F, loc, SR, push)
        if r is True:
            return rep.ok('state index', where(push), 'counter in step with the list of new states')
        if r is not None:
            return rep.viol('state index', where(push), r)
    rep.und('state index', where(push), show(F)[:120])


def counter(rep, G, I, F, loc, SR, push):
    chain = [F]
    while chain[-1].op == 'lv' and chain[-1] in G.sym:
        nx = G.sym[chain[-1]]
        if nx in chain:
            break
        chain.append(nx)
    V0 = chain[-1]
    loops = [t.a[0] for t in chain if t.op == 'lv']
    leafF = None
    for t in chain:
        if t.op == 'lv':
            info = I.loopinfo.get(t.a[0])
            if info is None:
                return None
            for leaf, (kind, init, sym) in info['leaves'].items():
                if sym is t:
                    leafF = leaf
    if leafF is None:
        return None
    seen = False
    todo = [L for L in I.loopinfo if any(leafF == lf for lf in I.loopinfo[L]['leaves']) and L not in loops]
    for L in loops + todo:
        info = I.loopinfo[L]
        if leafF not in info['leaves']:
            continue
        for s, H, tgt, delta in info['backs']:
            a = I.get_leaf(H.mem.get(leafF[0], UNINIT), leafF[1])
            b = I.get_leaf(s.mem.get(leafF[0], UNINIT), leafF[1])
            na = H.mem.get(loc)
            nb = s.mem.get(loc)
            if a is None or b is None or na is None or nb is None:
                return None
            df = sub(b, a)
            dn = sub(length(nb), length(na))
            if df.op == 'int' and dn.op == 'int':
                seen = True
                if df is not dn:
                    return 'a path adds %s states but numbers advance by %s' % (show(dn), show(df))
            elif b.op == 'lv':
                continue      # an inner loop; judged there
            elif df.op == 'int' and df.a[0] != 0:
                return None
            else:
                # outer round: restarts
                continue
    # start of a round
    info = I.loopinfo[loops[-1]]
    n0 = None
    for leaf, (kind, init, sym) in info['leaves'].items():
        if leaf == (loc, ()):
            n0 = init
    if n0 is None:
        return None
    c, d = lin(V0)
    ls = [k for k in d if k.op == 'len' and G.root(k.a[0]) is SR]
    if len(ls) == 1 and d[ls[0]] == 1:
        rest = sub(sub(V0, ls[0]), length(n0))
        if rest is INT(0):
            return True if seen else None
        if rest.op == 'int':
            return 'the first new state is numbered %s' % show(V0)[:80]
    if V0.op == 'int':
        return 'the first new state is numbered %s' % show(V0)
    return None


def applied(ctx, rep, G, R, SR):
    """Recorded transitions end up in their states."""
    P = ctx.P
    recs = [n for n in G.nodes if n.kind == 'push' and n.data[1].op == 'agg' and len(n.data[1].a[2]) == 3 and any(sym_agg(P, f) for f in n.data[1].a[2])]
    if not recs:
        return
    locs = set(loc_of(n.data[0]) for n in recs)
    if len(locs) != 1 or None in locs:
        rep.und('transition applied', where(recs[0]), 'several lists')
        return
    loc = list(locs)[0]
    fs = recs[0].data[1].a[2]
    si = [i for i, f in enumerate(fs) if sym_agg(P, f)][0]
    app = []
    for n in G.nodes:
        if n.kind == 'ins' and n.data[2] is not None:
            b = fld(n.data[0], 'goto', 'LR1State')
            if b is None or b.op != 'elem':
                continue
            e = n.data[1]
            if e.op == 'field' and e.a[0].op == 'elem':
                app.append((n, b.a[1], e, n.data[2], e.a[0]))
            elif not sym_agg(P, e):
                rep.und('transition applied', where(n), show(e)[:100])
                return
    if not app:
        rep.viol('transition applied', where(recs[0]), 'recorded transitions are never stored in the states')
        return
    for n, s, k, t, el in app:
        ok = s.op == 'field' and s.a[0] is el and t.op == 'field' and t.a[0] is el
        rep.check(ok and s.a[3] == '0' and k.a[3] == str(si) and t.a[3] == '2' if si == 1 else ok, 'transition applied', where(n), show(el)[:100],
                  'state %s gets %s -> %s' % (show(s)[:60], show(k)[:60], show(t)[:60]))
        if el.a[1].op != 'iv':
            rep.und('transition applied', where(n), 'index %s' % show(el.a[1])[:80])
            continue
        L = el.a[1].a[0]
        ids = {z[0].id for z in app}
        for h in G.hdrs.get(L, []):
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, lambda m: m.id in ids or (m.kind == 'exit' and m.data[0] == L))
            R.none(p, 'transition applied', where(h), 'each is stored', 'a recorded transition is dropped')
        for e in G.exits.get(L, []):
            if e.data[1] is None:
                rep.check(G.only_panics(e), 'transition applied', where(e), '', 'storing the transitions stops early')
            else:
                rep.check(e.data[1] is length(el.a[0]), 'transition applied', where(e), show(e.data[1])[:60], 'storing ends after %s' % show(e.data[1])[:80])
    # the list is emptied only after it was applied
    Ls = {z[4].a[1].a[0] for z in app if z[4].a[1].op == 'iv'}
    for n in recs:
        p = path(n, lambda m: m.kind == 'ret', lambda m: m.kind == 'exit' and m.data[0] in Ls and m.data[1] is not None)
        R.none(p, 'transition applied', where(n), 'before the end', 'recorded transitions are not stored in the states')


def all_visited(G, f, v, m, SR):
    """The fact says that the mark m is not below the number of states."""
    if f.op != 'gt0' or not isinstance(v, bool):
        return False
    c, d = lin(f.a[0])
    o = [k for k in d if k is not m]
    if m not in d or len(o) != 1 or o[0].op != 'len' or G.root(o[0].a[0]) is not SR or d[o[0]] != -d[m] or abs(d[m]) != 1:
        return False
    return d[m] == 1 and v and c <= 1 or d[m] == -1 and not v and c >= 0


def from_mark(rep, G, I, s, SR, w):
    """States are visited from a mark on: below the mark all have been visited, and the rounds end when the mark is the last state.
    Returns the loop over the states."""
    c, d = lin(s)
    ivs = [x for x in d if x.op == 'iv']
    ms = [x for x in d if x.op == 'lv']
    if c != 0 or len(d) != 2 or len(ivs) != 1 or len(ms) != 1 or any(v != 1 for v in d.values()):
        rep.und('all states', w, 'state index %s' % show(s)[:100])
        return None
    L, m = ivs[0].a[0], ms[0]
    F = m.a[0]
    info = I.loopinfo.get(F)
    leaf = next((l for l, (k, init, sym) in info['leaves'].items() if sym is m), None) if info else None
    if leaf is None:
        rep.und('all states', w, 'state index %s' % show(s)[:100])
        return None
    init = info['leaves'][leaf][1]
    if init.op != 'int':
        rep.und('all states', w, 'the first state visited is %s' % show(init)[:80])
        return None
    if not rep.check(init is INT(0), 'all states', w, 'from the first state', 'the first %s states are never visited' % show(init)):
        return None
    # rounds go on while there are states above the mark
    for e in G.exits.get(F, []):
        if e.data[1] is None and G.only_panics(e):
            continue
        left = any(all_visited(G, f, v, m, SR) for f, v in e.facts.items())
        same = any(f.op == 'eq0' and v is True and lin(f.a[0])[0] == 0 and m in lin(f.a[0])[1] and len(lin(f.a[0])[1]) == 2 and
                   any(k.op == 'len' and G.root(k.a[0]) is SR for k in lin(f.a[0])[1]) for f, v in e.facts.items())
        if not (left or same):
            rep.und('all states', where(e), 'the rounds end for another reason')
            return None
    ends = {add(e.data[1], m) for e in G.exits.get(L, []) if e.data[1] is not None}
    for st, H, tgt, delta in info['backs']:
        b = I.get_leaf(st.mem.get(leaf[0], UNINIT), leaf[1])
        if b is None:
            rep.und('all states', w, 'the mark is lost')
            return None
        if b is m or b in ends:
            rep.ok('all states', w, 'the mark moves to the end of what was visited')
        elif sub(b, m).op == 'int':
            k = sub(b, m).a[0]
            rep.check(k <= 1, 'all states', w, 'the mark moves by one', 'the mark moves by %d states however many were visited' % k)
            if k > 1:
                return None
        elif b.op == 'len' and G.root(b.a[0]) is SR:
            rep.viol('all states', w, 'the mark moves past the states that were added in the round: they are never visited')
            return None
        elif any(lin(sub(b, e))[0] >= 0 and all(v > 0 and k.op in ('len', 'iv') for k, v in lin(sub(b, e))[1].items()) for e in ends):
            rep.viol('all states', w, 'the mark moves further than the states that were visited')
            return None
        else:
            rep.und('all states', w, 'the mark moves to %s' % show(b)[:100])
            return None
    return L


def new_rounds(ctx, rep, G, R, SR, state_loops, sym_loops, marks=()):
    """States created while visiting states are stored and visited."""
    ps = [n for n in pushes(G) if any(l in sym_loops for l in n.loops)]
    for n in ps:
        old = n.data[2]
        loc = loc_of(n.data[0])
        direct = G.root(old) is SR

        def impossible(m):
            if m.kind != 'cond' or m.data[0].op not in ('gt0', 'eq0'):
                return False
            zero = m.data[1] is (m.data[0].op == 'eq0')
            c, d = lin(m.data[0].a[0])
            return zero and len(d) == 1 and c == 0 and all(y.op == 'len' and carries(G, y.a[0], loc) for y in d)
        if not direct:
            ext = lambda m: m.kind == 'extend' and G.root(m.data[2]) is SR and carries(G, m.data[1], loc) or \
                m.kind == 'push' and G.root(m.data[2]) is SR and m.data[1].op in ('elem', 'lv') and carries(G, m.data[1].a[0], loc)
            exts = [m for m in G.nodes if ext(m)]
            if not exts:
                any_ext = [m for m in G.nodes if m.kind in ('extend', 'push') and G.root(m.data[2]) is SR and any(l in state_loops or True for l in m.loops)
                           and m not in ps and len(m.loops) >= 1]
                ent = [m for m in any_ext if m.kind == 'extend']
                if ent:
                    rep.und('new states kept', where(n), 'stored by %s' % show(ent[0].data[1])[:80])
                else:
                    rep.viol('new states kept', where(n), 'new states are never added to the automaton')
                continue
            # one at a time: stored when the loop over the new states is done
            ends = set()
            for m in exts:
                v = m.data[1]
                if m.kind == 'push' and v.op == 'elem' and v.a[1].op == 'iv' and v.a[1].a[0] in m.loops:
                    L, sibs = v.a[1].a[0], [k for k in exts if k.kind == 'push' and k.data[1] is v]
                    if not any(path(h, lambda k: k.kind == 'hdr' and k.data[0] == L, lambda k: k in sibs or k.kind == 'exit' and k.data[0] == L) for h in G.hdrs.get(L, [])) and \
                            all(x.data[1] is length(v.a[0]) or x.data[1] is None and G.only_panics(x) for x in G.exits.get(L, [])):
                        ends |= {x.id for x in G.exits.get(L, []) if x.data[1] is not None}
            p = path(n, lambda m: m.kind == 'ret' or (m.kind == 'hdr' and m.data[0] in state_loops and not inside(n, m)), lambda m: m in exts or m.id in ends or impossible(m))
            if p is None:
                # or the next round starts without them
                skip = lambda m: m in exts or m.id in ends or impossible(m)
                for L in [l for l in n.loops if l in state_loops]:
                    outs = [e for e in G.exits.get(L, []) if path(n, lambda m: m is e, skip) is not None]
                    p = p or path(outs, lambda m: m.kind == 'hdr' and m.data[0] == L, skip)
            R.none(p, 'new states kept', where(n), 'added to the automaton', 'new states are dropped')
        # visited
        grow = all(any(e.data[1] is None for e in G.exits.get(L, [])) and not any(e.data[1] is not None for e in G.exits.get(L, [])) for L in state_loops)
        if direct and grow:
            rep.ok('another round', where(n), 'states are visited until none is left')
            continue
        if marks and all(L in marks for L in state_loops):
            rep.ok('another round', where(n), 'states above the mark are visited in the next round')
            continue
        fix = [l for l in n.loops if not any(e.data[1] is not None for e in G.exits.get(l, [])) and l not in state_loops]
        if not fix:
            rep.viol('another round', where(n), 'new states are never visited')
            continue
        F = fix[0]
        hf = G.hdrs.get(F, [])
        sh = lambda m: m.kind == 'hdr' and m.data[0] in state_loops
        live = {h.id for h in hf if path(h, lambda m: m.kind == 'ret', sh) is None}

        p = path(n, lambda m: m.kind == 'ret', lambda m: m.id in live or impossible(m))
        if p is not None and any(m.kind == 'cond' and any(y.op == 'len' for y in walk(m.data[0])) and not any(y.op == 'iv' for y in walk(m.data[0])) and
                                 any(y.op == 'len' and (G.root(y.a[0]) is SR) for y in walk(m.data[0])) for m in p):
            rep.und('another round', where(n), 'change detection by size is not analysed')
            continue
        R.none(p, 'another round', where(n), 'new states are visited in another round', 'new states may be left without transitions')


def inside(n, h):
    return h.data[0] in n.loops


def carries(G, t, loc):
    """t is the value of the variable at loc (possibly accumulated by loops)."""
    if loc is None:
        return False
    for x in walk(t):
        if x.op == 'lv' and x.a[1].op == 'leaf' and x.a[1].a[0] == loc:
            return True
    return False


def initial(P, G):
    """The items that start the states of entry points."""
    ks = []
    for n in G.nodes:
        if n.kind == 'ins':
            it = as_item(P, n.data[1])
            if it is not None and payload(it.nt) is None and fld(it.nt, 'non_terminal_idx', 'LR1Item') is None:
                ks.append((n, it))
    return ks


def entries(ctx, rep, G, R, I, SR, MAPNT, state_loops):
    """One initial state per pub non-terminal."""
    P = ctx.P
    ks = initial(P, G)
    if not ks:
        rep.und('entry states', ROOT, 'no initial items recognised')
        return
    for n, it in ks:
        rep.check(it.cursor is INT(0), 'entry states', where(n), 'dot at the start', 'starts at position %s' % show(it.cursor)[:60])
        rep.check(it.la is NONE, 'entry states', where(n), 'until end of input', 'initial lookahead is %s' % show(it.la)[:60])
        if it.nt.op != 'iv':
            (rep.viol if it.nt.op == 'int' else rep.und)('entry states', where(n), 'non-terminal %s' % show(it.nt)[:60])
            continue
        L = it.nt.a[0]
        for e in G.exits.get(L, []):
            t = e.data[1]
            if t is None:
                rep.check(G.only_panics(e), 'entry states', where(e), 'fails', 'the search for entry points stops early')
            else:
                rep.check(t.op == 'len' and fld(t.a[0], 'non_terminals', 'Grammar') is not None, 'entry states', where(e), show(t)[:60],
                          'the search for entry points ends at %s' % show(t)[:60])
        pub = lambda v: lambda m: m.kind == 'cond' and m.data[0].op == 'field' and m.data[0].a[3] == 'public' and m.data[1] is v
        for h in G.hdrs.get(L, []):
            p = path(h, lambda m: m is n, pub(True))
            R.none(p, 'entry states', where(n), 'only for pub non-terminals', 'an entry state is made for a non-terminal that is not pub')
        ps = [m for m in pushes(G) if L in m.loops]
        pid = {m.id for m in ps}
        for h in G.hdrs.get(L, []):
            p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] == L) or m.kind == 'ret',
                     lambda m: m.id in pid or pub(False)(m) or (m.kind == 'exit' and m.data[0] == L))
            R.none(p, 'entry states', where(h), 'one for each pub non-terminal', 'a pub non-terminal gets no entry state')
        ms = [m for m in G.nodes if m.kind == 'ins' and MAPNT is not None and G.root(m.data[0]) is MAPNT]
        mids = {m.id for m in ms}
        if not ms:
            rep.und('entry states', ROOT, 'entry map not recognised')
        else:
            for h in G.hdrs.get(L, []):
                p = path(h, lambda m: (m.kind == 'hdr' and m.data[0] == L) or m.kind == 'ret',
                         lambda m: m.id in mids or pub(False)(m) or (m.kind == 'exit' and m.data[0] == L))
                R.none(p, 'entry states', where(h), 'registered', 'the entry state of a pub non-terminal is not registered')
        for m in ps:
            its = items_of(P, m.data[1])
            KS = G.root(n.data[0])
            rep.check(G.root(its) is KS, 'entry states', where(m), 'made of the initial items', 'made of %s' % show(its)[:100])
            for q in ms:
                rep.check(q.data[1] is it.nt, 'entry states', where(q), show(q.data[1]), 'registered for non-terminal %s' % show(q.data[1])[:80])
                if q.data[2] is length(m.data[2]):
                    rep.ok('entry states', where(q), show(q.data[2])[:60])
                elif not lin(sub(q.data[2], length(m.data[2])))[1]:
                    rep.viol('entry states', where(q), 'the entry state is number %s but registered as %s' % (show(length(m.data[2]))[:80], show(q.data[2])[:80]))
                elif q.data[2] is sub(length(cat_push(q, m)), INT(1)) if cat_push(q, m) is not None else False:
                    rep.ok('entry states', where(q), show(q.data[2])[:60])
                elif q.data[2].op == 'int' and length(m.data[2]).op != 'int':
                    rep.viol('entry states', where(q), 'the entry state is number %s but registered as %s' % (show(length(m.data[2]))[:80], show(q.data[2])[:80]))
                else:
                    rep.und('entry states', where(q), show(q.data[2])[:100])
        # other registrations of the entry set in the sharing map use the same number
        for q in G.nodes:
            if q.kind == 'ins' and q.data[2] is not None and L in q.loops and key_set(G, q.data[1], G.root(n.data[0])) is True:
                for m in ps:
                    d = lin(sub(q.data[2], length(m.data[2])))
                    if not d[1]:
                        rep.check(d[0] == 0, 'entry states', where(q), 'number in the sharing map', 'entry state registered under a wrong number')


def cat_push(q, m):
    return None
