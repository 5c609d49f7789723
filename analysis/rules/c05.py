"""Path rules on the event graph of build_lr1_table: whenever an action is entered in a cell that may already hold another one, the old
content is examined and every combination other than shift-over-reduce stops the expansion; nothing is ever removed from the table."""
from lrtab import *


def check(ctx, rep, tier):
    T_ = Table(ctx, rep)
    G = T_.G
    R = Rules(rep, G)
    rep.note('event graph nodes', len(G.nodes))
    rep.note('action entries', len(T_.acts))
    for n in T_.odd:
        rep.und('table update', where(n), '%s %s' % (n.kind, show(n.data[0])[:100] if isinstance(n.data[0], T) else n.data[0]))
    if T_.odd:
        return
    if not T_.acts:
        raise Undecided('no action entries')
    for n, row in T_.acts:
        k = T_.kind(n)
        J = T_.item_of(n, row)
        if J is None or row is None or J.a[1].op != 'iv':
            rep.und('item', where(n), show(n.data[2])[:150])
            continue
        L, hL, S, hS = T_.item_loop(J)
        end = T_.iter_end(J)
        key = n.data[1]
        w = where(n)
        cell = {}
        for m in G.nodes:
            o = T_.old_cell(m, row, key)
            if o is not None:
                cell[m.id] = o
        looked = lambda m: m.id in cell and cell[m.id] != 'present'
        absent = lambda m: m.id in cell and cell[m.id] == 'absent'
        # 1. the old content is looked at
        p1 = path(hL, lambda m: m is n, looked)
        p2 = path(n, end, looked)
        if p1 is not None and p2 is not None:
            R.none(p1 + p2[1:], 'old action examined', w, '', '%s is entered without looking at the action already there' % k.lower())
        else:
            rep.ok('old action examined', w, 'the action replaced is examined')
        same = lambda m: m.id in cell and isinstance(cell[m.id], tuple) and cell[m.id][0] == 'same' and cell[m.id][1] is True and full_same(T_, cell[m.id][2], n)
        diff_kind = lambda ks: (lambda m: m.id in cell and isinstance(cell[m.id], tuple) and cell[m.id][0] == 'kind' and not (cell[m.id][1] & ks))
        # 2. what was found decides
        for m in G.nodes:
            if m.id not in cell:
                continue
            o = cell[m.id]
            if o == 'present':
                # seen but not what it is
                for_kinds = bad_kinds(k)
                p = path(m, end, lambda x: same(x) or (x.id in cell and isinstance(cell[x.id], tuple)))
                if p is not None:
                    if k == 'Shift' and passes(hL, m, n, end):
                        R.none(p, 'conflict', where(m), '', 'an action is replaced by a shift whatever it was')
                    else:
                        R.none(p, 'conflict', where(m), '', 'a %s meets another action and the expansion goes on' % k.lower())
                else:
                    rep.ok('conflict', where(m), '%s on an occupied cell: the old action decides' % k)
                continue
            if isinstance(o, tuple) and o[0] == 'kind':
                ks = o[1]
                if ks & bad_kinds(k):
                    ps = [path(m, end, lambda x: same(x) or diff_kind(ks & bad_kinds(k))(x) or pt(x)) for pt in parts_same(T_, n, cell)]
                    p = next((x for x in ps if x is not None), None)
                    R.none(p, 'conflict', where(m), '%s over %s stops the expansion' % (k, '/'.join(sorted(ks))),
                           'a %s meets a %s in the same cell and the expansion goes on' % (k.lower(), '/'.join(sorted(x.lower() for x in ks & bad_kinds(k)))))
                elif k == 'Shift' and 'Reduce' in ks:
                    # shift wins: the shift is there in the end
                    before = path(hL, lambda x: x is m, lambda x: x is n)
                    after = path(m, end, lambda x: x is n or diff_kind(frozenset(['Reduce']))(x))
                    if T_.back:
                        rep.und('shift kept', where(m), 'an action is put back')
                    elif before is not None and after is not None:
                        R.none(before + after[1:], 'shift kept', where(m), '', 'a shift is dropped in favour of a reduction')
                    else:
                        rep.ok('shift kept', where(m), 'the shift replaces the reduction')
                elif k == 'Reduce' and 'Shift' in ks:
                    b1, a1 = path(hL, lambda x: x is n, lambda x: absent(x)), path(n, lambda x: x is m)
                    e1 = path(m, end, diff_kind(frozenset(['Shift'])))
                    c1, d1 = path(hL, lambda x: x is m), path(m, lambda x: x is n, diff_kind(frozenset(['Shift'])))
                    e2 = path(n, end)
                    if T_.back:
                        rep.und('shift kept', where(m), 'an action is put back')
                    elif b1 is not None and a1 is not None and e1 is not None:
                        R.none(a1 + e1[1:], 'shift kept', where(m), '', 'a reduction replaces a shift and the expansion goes on')
                    elif c1 is not None and d1 is not None and e2 is not None:
                        R.none(d1, 'shift kept', where(m), '', 'a reduction replaces a shift')
                    else:
                        rep.ok('shift kept', where(m), 'a reduction never replaces a shift')
            if isinstance(o, tuple) and o[0] == 'same' and not full_same(T_, o[2], n) and o[1] is True:
                # compares only part of the actions
                if k in ('Reduce',):
                    ps = [path(m, end, pt) for pt in parts_same(T_, n, cell) if not pt(m) and path(hL, lambda x: x is m, pt) is not None]
                    p = next((x for x in ps if x is not None), None)
                    ev = partial(T_, o[2], n)
                    if p is not None and ev:
                        rep.viol('conflict', where(m), 'two different actions count as equal: %s' % show(o[2])[:150])
                    elif p is not None:
                        rep.und('conflict', where(m), 'equality %s' % show(o[2])[:150])
    rep.assumptions += ['std/fxhash maps behave as documented', 'every action of every item is entered (C04)']


def bad_kinds(k):
    return {'Shift': frozenset(['Shift']), 'Reduce': frozenset(['Reduce', 'Accept']), 'Accept': frozenset(['Reduce'])}[k]


def passes(hL, m, n, end):
    return path(n, lambda x: x is m) is not None or path(m, lambda x: x is n, end) is not None


def full_same(T_, a, n):
    """Does atom a compare the whole old action with the new one?"""
    new = n.data[2]
    if a.op in ('eqv', 'eq'):
        xs = [x for x in a.a if isinstance(x, T)]
        if any(x is new for x in xs):
            return True
        # part-wise: old.Shift.0 == new target
    parts = [p for p in new.a[2]] if new.op == 'agg' else []
    if new.a[1] == 'Shift':
        return any(contains(a, p) for p in parts)
    return False


def parts_same(T_, n, cell):
    """The same production: the same non-terminal and the same number (an item has one action)."""
    new = n.data[2]
    if not (new.op == 'agg' and new.a[1] == 'Reduce' and len(new.a[2]) >= 2):
        return [lambda x: False]

    def test(i):
        def f(x):
            o = cell.get(x.id)
            return isinstance(o, tuple) and o[0] == 'same' and o[1] is True and compares(o[2], new.a[2][i], i)
        return f
    return [test(0), test(1)]


def compares(a, p, i):
    """Atom a says that part i of the old reduction is p."""
    if a.op == 'eq0':
        d = lin(a.a[0])
        if d[0] != 0 or len(d[1]) != 2 or sorted(d[1].values()) != [-1, 1]:
            return False
        xs = list(d[1])
    elif a.op in ('eq', 'eqv'):
        xs = [x for x in a.a if isinstance(x, T)]
    else:
        return False
    q = [x for x in xs if x is p or p.op == 'agg' and len(p.a[2]) == 1 and x is p.a[2][0] or x.op == 'field' and x.a[0] is p]
    o = [x for x in xs if x not in q]
    return len(q) == 1 and len(o) == 1 and any(x.op == 'field' and x.a[2] == 'Reduce' and str(x.a[3]) == str(i) for x in walk(o[0]))


def partial(T_, a, n):
    new = n.data[2]
    return any(contains(a, p) for p in new.a[2])
