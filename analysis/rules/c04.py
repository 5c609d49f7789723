"""Path rules on the event graph of build_lr1_table (everything inlined): every item of every state is visited; a shift is entered for
exactly the items with a token after the dot, a reduction for exactly the complete items of ordinary non-terminals under the item's own
lookahead, acceptance for exactly the complete entry item at end of input; gotos are copied from the state's own transitions."""
from lrtab import *


def check(ctx, rep, tier):
    T_ = Table(ctx, rep)
    G = T_.G
    R = Rules(rep, G)
    rep.note('event graph nodes', len(G.nodes))
    rep.note('action entries', len(T_.acts))
    rep.note('goto entries', len(T_.gotos))
    for n in T_.odd:
        rep.und('table update', where(n), '%s %s' % (n.kind, show(n.data[0])[:100] if isinstance(n.data[0], T) else n.data[0]))
    for n, row in T_.back:
        rep.und('table update', where(n), 'an entry gets back what it held before')
    if T_.odd:
        return
    by = {'Shift': [], 'Reduce': [], 'Accept': []}
    items = []
    for n, row in T_.acts:
        k = T_.kind(n)
        J = T_.item_of(n, row)
        if J is None or row is None:
            # no item involved at all?
            if k != 'Accept':
                rep.und('item', where(n), show(n.data[2])[:150])
                return
            rep.viol('accept', where(n), 'accepts without looking at an item') if not any(
                x.op in ('lv', 'opq') for f in n.facts for x in walk(f)) else rep.und('item', where(n), 'accept')
            return
        by[k].append((n, row, J))
        if J not in items:
            items.append(J)
    anyJ = items[0] if items else None
    for k in by:
        if not by[k]:
            rep.viol(k.lower(), T_.I.rets[0].span.replace('/repo/', ''), 'no %s action is ever entered' % k)
    if anyJ is None:
        return
    # ---- every item of every state ---------------------------------------------------------------
    seenL = set()
    for J in items:
        kk, dd = lin(J.a[1]) if J.a[1].op not in ('lv', 'opq') else (0, {})
        if kk and len(dd) == 1 and list(dd)[0].op == 'iv':
            rep.viol('all items', ROOT, 'a state\'s items are visited from number %d on' % kk)
            return
        if J.a[1].op != 'iv' or item_state(J)[1].op != 'iv':
            kk, dd = lin(item_state(J)[1]) if item_state(J)[1].op not in ('lv', 'opq', 'iv') else (0, {})
            if kk and len(dd) == 1 and list(dd)[0].op == 'iv':
                rep.viol('all states', ROOT, 'the states are visited from number %d on' % kk)
                return
        L, hL, S, hS = T_.item_loop(J) if J.a[1].op == 'iv' else (None,) * 4
        if J.a[1].op != 'iv' or S is None:
            rep.und('all items', ROOT, show(J)[:120])
            return
        if L in seenL:
            continue
        seenL.add(L)
        for x in G.exits.get(L, []):
            t = x.data[1]
            if t is None:
                rep.check(G.only_panics(x), 'all items', where(x), 'fails', 'the loop over a state\'s items stops early')
            else:
                rep.check(t is length(J.a[0]), 'all items', where(x), show(t)[:80], 'the loop over a state\'s items ends at %s' % show(t)[:80])
        sts, s = item_state(J)
        for x in G.exits.get(S, []):
            t = x.data[1]
            if t is None:
                rep.check(G.only_panics(x), 'all states', where(x), 'fails', 'the loop over the states stops early')
            else:
                rep.check(t is length(sts), 'all states', where(x), show(t)[:80], 'the loop over the states ends at %s' % show(t)[:80])
        for h in hS:
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == S, lambda m: (m.kind == 'hdr' and m.data[0] == L) or (m.kind == 'exit' and m.data[0] == S))
            R.none(p, 'all states', where(h), 'each state\'s items are visited', 'a state\'s items are not visited')
    # ---- shift -------------------------------------------------------------------------------------
    for n, row, J in by['Shift']:
        w = where(n)
        s = key_tok(n.data[1])
        rep.check(row is item_state(J)[1], 'row', w, show(row), 'entered in row %s' % show(row)[:80])
        if s is None:
            rep.viol('shift token', w, 'shifts %s' % show(n.data[1])[:120])
            continue
        rep.check(owner(s)[1] is INT(0), 'shift token', w, 'the token after the dot', 'shifts the symbol %s after the dot' % show(owner(s)[1])[:60])
        v = n.data[2].a[2][0]
        good = v.op == 'field' and v.a[2] == 'Some' and v.a[0].op == 'get' and own_goto(v.a[0].a[0], J) and \
            (v.a[0].a[1] is s.term or sym_of_payload(T_.P, v.a[0].a[1], s))
        if not good and any(x.op in ('lv', 'opq', 'res', 'phi') for x in walk(v)):
            rep.und('shift target', w, show(v)[:150])
        else:
            rep.check(good, 'shift target', w, 'the state\'s own transition', 'shifts to %s' % show(v)[:150])
        L, hL, S, hS = T_.item_loop(J)
        p = path(hL, lambda m: m is n, lambda m: T_.nexts(m, J) == frozenset(['Terminal']))
        R.none(p, 'shift justified', w, 'only when a token is expected', 'shifts although no token is expected')
    # ---- reduce ------------------------------------------------------------------------------------
    for n, row, J in by['Reduce']:
        w = where(n)
        a = n.data[2].a[2]
        rep.check(row is item_state(J)[1], 'row', w, show(row), 'entered in row %s' % show(row)[:80])
        if fld(a[0], 'non_terminal_idx', 'LR1Item') is J:
            rep.ok('reduce by', w, 'own non-terminal')
        else:
            rep.viol('reduce by', w, 'reduces to non-terminal %s' % show(a[0])[:100])
        rep.check(fld(a[1], 'production_idx', 'LR1Item') is J, 'reduce by', w, 'own production', 'reduces by production %s' % show(a[1])[:100])
        pr = fld(a[2], 'action', 'Production')
        pa = prod_at(pr) if pr is not None else None
        good = pa is not None and fld(pa[1], 'non_terminal_idx', 'LR1Item') is J and fld(pa[2], 'production_idx', 'LR1Item') is J
        rep.check(good, 'reduce by', w, 'own action', 'runs the action %s' % show(a[2])[:150])
        kl = n.data[1]
        okla = own_la(kl, J) == 'opt' or (own_la(la_value(kl), J) == 'tok')
        if not okla and kl is NONE:
            okla = any(f.op == 'discr' and own_la(f.a[0], J) == 'opt' and v == frozenset(['None']) for f, v in n.facts.items())
        if okla:
            rep.ok('reduce lookahead', w, 'own lookahead')
        elif any(x.op in ('lv', 'opq', 'res', 'phi') for x in walk(kl)):
            rep.und('reduce lookahead', w, show(kl)[:150])
        else:
            rep.viol('reduce lookahead', w, 'reduces under %s' % show(kl)[:150])
        L, hL, S, hS = T_.item_loop(J)
        p = path(hL, lambda m: m is n, lambda m: T_.done(m, J) is True)
        R.none(p, 'reduce justified', w, 'only complete items', 'reduces an item that is not complete')
        def not_entry(m):
            la = T_.la(m, J)
            # an entry production's items only ever carry the end of the input (C03)
            return T_.public(m, J) is False or (la is not None and 'None' not in la)
        p = path(hL, lambda m: m is n, not_entry)
        R.none(p, 'entry not reduced', w, 'not for entry productions', 'an entry production is reduced as an ordinary one')
    # ---- accept ------------------------------------------------------------------------------------
    for n, row, J in by['Accept']:
        w = where(n)
        rep.check(row is item_state(J)[1], 'row', w, show(row), 'entered in row %s' % show(row)[:80])
        k = n.data[1]
        rep.check(k is NONE or (own_la(k, J) == 'opt'), 'accept at end', w, 'end of input', 'accepts at %s' % show(k)[:100])
        L, hL, S, hS = T_.item_loop(J)
        p = path(hL, lambda m: m is n, lambda m: T_.public(m, J) is True)
        R.none(p, 'accept entry', w, 'only entry productions', 'accepts on a production that is not an entry')
        p = path(hL, lambda m: m is n, lambda m: T_.done(m, J) is True or T_.cursor1(m, J) is True)
        R.none(p, 'accept complete', w, 'only complete', 'accepts although the entry production is not complete')
        p = path(hL, lambda m: m is n, lambda m: T_.la(m, J) == frozenset(['None']))
        R.none(p, 'accept at end', w, 'only at end of input', 'accepts an item whose lookahead is not end of input')
    # ---- nothing missing -----------------------------------------------------------------------------
    for J in items:
        L, hL, S, hS = T_.item_loop(J)
        end = T_.iter_end(J)
        fin = lambda m: m.kind == 'exit' and m.data[0] == L and m.data[1] is not None
        w = where(hL[0])
        for k in ('Shift', 'Reduce', 'Accept'):
            if not any(j is J for _, _, j in by[k]):
                # entered in another loop
                if not by[k]:
                    continue
                continue
            ids = {n.id for n, _, j in by[k] if j is J}
            cells = [(row, n.data[1]) for n, row, j in by[k] if j is J]
            hit = lambda m: m.id in ids
            if k == 'Shift':
                def skip(m):
                    if hit(m) or fin(m):
                        return True
                    nx = T_.nexts(m, J)
                    if nx is not None and 'Terminal' not in nx:
                        return True
                    if T_.done(m, J) is True:
                        return True
                    if m.kind == 'cond' and m.data[1] is False and m.data[0].op == 'has' and own_goto(m.data[0].a[0], J):
                        return True
                    return False
                p = path(hL, lambda m: end(m), skip)
                R.none(p, 'shift complete', w, 'every expected token', 'an expected token is not shifted')
            elif k == 'Reduce':
                def skip(m):
                    if hit(m) or fin(m) or T_.done(m, J) is False or T_.public(m, J) is True:
                        return True
                    if T_.nexts(m, J) is not None:
                        return True
                    for c in cells:
                        o = T_.old_cell(m, *c)
                        if o and o[0] == 'kind' and o[1] <= frozenset(['Shift']):
                            return True
                    return False
                p = path(hL, end, skip)
                R.none(p, 'reduce complete', w, 'every complete item', 'a complete item is not reduced')
            else:
                def skip(m):
                    if hit(m) or fin(m) or T_.done(m, J) is False or T_.public(m, J) is False or T_.cursor1(m, J) is False:
                        return True
                    if T_.nexts(m, J) is not None:
                        return True
                    la = T_.la(m, J)
                    if la is not None and 'None' not in la:
                        return True
                    for c in cells:
                        o = T_.old_cell(m, *c)
                        if o and o[0] == 'kind' and o[1] == frozenset(['Accept']):
                            return True
                    return False
                p = path(hL, end, skip)
                R.none(p, 'accept complete', w, 'every complete entry item', 'a complete entry production is not accepted at end of input')
    # ---- gotos ------------------------------------------------------------------------------------------
    gotos(T_, rep, R)
    rep.assumptions += ['the automaton passed in is complete (C02, C03)', 'entry productions have exactly one symbol (lowering; checked under C12)']


def own_goto(m, J):
    """m = the transition map of the state J belongs to."""
    b = fld(m, 'goto', 'LR1State')
    st = item_state(J)
    return b is not None and b.op == 'elem' and st is not None and b.a[0] is st[0] and b.a[1] is st[1]


def sym_of_payload(P, t, s):
    if t.op == 'agg' and t.a[0].split('::')[-1] == 'Symbol' and t.a[1] == 'Terminal':
        p = payload(t.a[2][0])
        return p is not None and p[1].key() == s.key()
    return False


def state_goto(t):
    """t = states[s].goto -> (states, s)"""
    b = fld(t, 'goto', 'LR1State')
    if b is not None and b.op == 'elem':
        return b.a[0], b.a[1]
    return None


def gotos(T_, rep, R):
    G = T_.G
    if not T_.gotos:
        rep.viol('goto', ROOT, 'no goto is ever entered')
        return
    loops = {}
    for n, row in T_.gotos:
        w = where(n)
        k, v = n.data[1], n.data[2]
        # key: the non-terminal of entry e of the state's transitions; value: its target
        e = None
        if k.op == 'field' and k.a[2] == 'NonTerminal' and k.a[3] == '0':
            e0 = k.a[0]
            if e0.op == 'field' and e0.a[3] == '0' and e0.a[0].op == 'elem':
                e = e0.a[0]
            elif e0.op == 'elem' and e0.a[0].op == 'mapproj':
                e = mk('elem', e0.a[0].a[0], e0.a[1])
        if e is not None and e.a[0].op == 'setseq' and state_goto(e.a[0].a[0]):
            sg = state_goto(e.a[0].a[0])
            rep.check(row is sg[1], 'goto row', w, show(row), 'the transitions of state %s are entered in row %s' % (show(sg[1])[:60], show(row)[:60]))
            tgt = v.op == 'field' and v.a[3] == '1' and v.a[0] is e
            if not tgt and v.op == 'field' and v.a[2] == 'Some' and v.a[0].op == 'get' and v.a[0].a[0] is e.a[0].a[0]:
                tgt = v.a[0].a[1] is k.a[0]
            rep.check(tgt, 'goto target', w, 'the state\'s own transition', 'the target is %s' % show(v)[:150])
            if e.a[1].op != 'iv':
                rep.und('goto complete', w, show(e)[:100])
                return
            loops.setdefault(e.a[1].a[0], []).append((n, sg, e.a[0], 'map'))
            continue
        # iteration over the grammar's non-terminals with a lookup
        if v.op == 'field' and v.a[2] == 'Some' and v.a[0].op == 'get' and state_goto(v.a[0].a[0]):
            g = v.a[0]
            sg = state_goto(g.a[0])
            rep.check(row is sg[1], 'goto row', w, show(row), 'the transitions of state %s are entered in row %s' % (show(sg[1])[:60], show(row)[:60]))
            same = g.a[1].op == 'agg' and g.a[1].a[1] == 'NonTerminal' and g.a[1].a[2][0] is k
            rep.check(same, 'goto target', w, 'the transition on that non-terminal', 'the target is the transition on %s' % show(g.a[1])[:100])
            if k.op == 'iv':
                loops.setdefault(k.a[0], []).append((n, sg, g, 'lookup'))
                continue
        if any(x.op in ('lv', 'opq', 'res', 'phi') for x in walk(k)) or any(x.op in ('lv', 'opq', 'res', 'phi') for x in walk(v)) or True:
            rep.und('goto', w, '%s -> %s' % (show(k)[:100], show(v)[:100]))
            return
    for L, lst in loops.items():
        ids = {x[0].id for x in lst}
        n, sg, seq, how = lst[0]
        w = where(n)
        for x in G.exits.get(L, []):
            t = x.data[1]
            if t is None:
                rep.check(G.only_panics(x), 'goto complete', where(x), '', 'the loop over the transitions stops early')
            elif how == 'map':
                rep.check(t is length(seq), 'goto complete', where(x), show(t)[:80], 'the loop over the transitions ends at %s' % show(t)[:80])
            else:
                good = t.op == 'len' and fld(t.a[0], 'non_terminals', 'Grammar') is not None
                rep.check(good, 'goto complete', where(x), show(t)[:80], 'the loop over the non-terminals ends at %s' % show(t)[:80])

        def skip(m):
            if m.id in ids or (m.kind == 'exit' and m.data[0] == L):
                return True
            d = discr_cond(m)
            if d and 'NonTerminal' not in d[1] and d[0].op in ('field', 'elem') and contains(d[0], seq):
                return True
            if how == 'lookup' and m.kind == 'cond' and m.data[0].op == 'has' and m.data[1] is False and state_goto(m.data[0].a[0]):
                return True
            return False
        for h in G.hdrs.get(L, []):
            p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, skip)
            R.none(p, 'goto complete', where(h), 'each non-terminal transition is entered', 'a transition is not entered in the table')
        # the loop is reached for every state
        S = sg[1].a[0] if sg[1].op == 'iv' else None
        if S is None:
            rep.und('goto complete', w, 'state %s' % show(sg[1])[:60])
            continue
        for x in G.exits.get(S, []):
            t = x.data[1]
            if t is None:
                rep.check(G.only_panics(x), 'all states', where(x), 'fails', 'the loop over the states stops early')
            else:
                rep.check(t is length(sg[0]), 'all states', where(x), show(t)[:80], 'the loop over the states ends at %s' % show(t)[:80])
        outer = [l for l in n.loops if l not in (L, S)]
        full = lambda m: m.kind == 'exit' and m.data[0] in loops and m.data[1] is not None
        if S not in n.loops:
            rep.und('goto complete', w, 'state loop')
            continue
        inner = outer[-1] if outer and n.loops.index(outer[-1]) > n.loops.index(S) else None
        if inner is None:
            for h in G.hdrs.get(S, []):
                p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == S, lambda m: full(m) or (m.kind == 'exit' and m.data[0] == S))
                R.none(p, 'goto complete', where(h), 'for every state', 'a state\'s transitions are not entered')
        else:
            # inside the loop over the items: every iteration reaches it (a state has at least one item)
            for h in G.hdrs.get(inner, []):
                p = path(h, lambda m: m.kind == 'hdr' and m.data[0] == inner, lambda m: full(m) or (m.kind == 'exit' and m.data[0] == inner))
                if p is None:
                    rep.ok('goto complete', where(h), 'for every item of a state')
                else:
                    rep.und('goto complete', where(h), 'not for every item: %s' % show_path(p))
