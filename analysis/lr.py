"""Recognition of LR(1) items and the events of item-set computation."""
from base import *
from gram import *

IDX = {}


def item_fields(P):
    """{field name: position} of LR1Item."""
    if 'i' not in IDX:
        adts = [k for k in P.adts if k.split('::')[-1] == 'LR1Item']
        if len(adts) != 1:
            raise Undecided('item type not found')
        m = {}
        for f in ('non_terminal_idx', 'production_idx', 'cursor', 'lookahead'):
            j = P.field_index(adts[0], '', f)
            if j is None:
                raise Undecided('item type has an unexpected representation')
            m[f] = j
        IDX['n'] = adts[0]
        IDX['i'] = m
    return IDX['i']


class Item(object):
    """An item built field by field."""

    def __init__(self, t, ix):
        self.term = t
        self.nt = t.a[2][ix['non_terminal_idx']]
        self.prod = t.a[2][ix['production_idx']]
        self.cursor = t.a[2][ix['cursor']]
        self.la = t.a[2][ix['lookahead']]


def as_item(P, t):
    ix = item_fields(P)
    if t.op == 'agg' and t.a[0] == IDX['n'] and len(t.a[2]) == len(ix):
        return Item(t, ix)
    return None


def owner(s):
    """Sym whose non-terminal and production indices are those of one item I -> (I, offset of the symbol
    from I's cursor as a term) or None."""
    a, b = fld(s.i, 'non_terminal_idx', 'LR1Item'), fld(s.p, 'production_idx', 'LR1Item')
    if a is None or a is not b:
        return None
    return a, sub(s.m, cursor_of(a))


def cursor_of(I):
    return _f(I, 'cursor')


def _f(I, name):
    return mk('field', I, IDX['n'], '', name)


def complete_val(G, n, I):
    """Truth of 'item I is complete' that decision node n establishes: True, False or None."""
    if n.kind != 'cond' or n.data[0].op not in ('gt0', 'eq0'):
        return None
    c, d = lin(n.data[0].a[0])
    cur = _f(I, 'cursor')
    rest = [k for k in d if k is not cur]
    if cur not in d or len(rest) != 1 or rest[0].op != 'len':
        return None
    r = symbols_of(rest[0].a[0])
    if r is None or fld(r[1], 'non_terminal_idx', 'LR1Item') is not I or fld(r[2], 'production_idx', 'LR1Item') is not I:
        return None

    def truth(delta):     # cursor = len + delta, len large
        v = [c + d[cur] * (N + delta) + d[rest[0]] * N for N in (1000,)][0]
        return v > 0 if n.data[0].op == 'gt0' else v == 0
    t0, t1 = truth(0), truth(-1)
    if t0 == t1 or truth(-500) != t1:
        return None
    return t0 == n.data[1]


def bool_soft(p):
    """Does the path depend on a decision whose meaning is not known (a flag that could not be followed)?"""
    for n in p:
        if n.kind == 'cond':
            a = n.data[0]
            while a.op in ('not',):
                a = a.a[0]
            if a.op in ('lv', 'opq', 'old', 'res', 'eqv'):
                return n
    return None


class Rules(object):
    """Path obligations that report a violation, or 'undecided' when the path depends on an unknown flag."""

    def __init__(self, rep, G):
        self.rep, self.G = rep, G

    def none(self, p, rule, w, good, bad):
        if p is None:
            self.rep.ok(rule, w, good)
            return True
        s = bool_soft(p)
        if s is not None:
            self.rep.und(rule, w, 'depends on %s: %s' % (show(s.data[0])[:100], show_path(p)))
        else:
            self.rep.viol(rule, w, bad + ': ' + show_path(p))
        return False


def la_value(la):
    """Some(x) -> x; otherwise the term itself."""
    if la.op == 'agg' and la.a[0] == OPTION and la.a[1] == 'Some':
        return la.a[2][0]
    if la.op == 'elem' and la.a[0].op == 'seq' and len(la.a[0].a[0]) == 1 and la.a[0].a[0][0][0] == 'e':
        return la_value(la.a[0].a[0][0][1])
    return la


def own_la(t, I):
    """t is I's lookahead ('opt': as an Option, 'tok': the token in it) or None."""
    if fld(t, 'lookahead', 'LR1Item') is I:
        return 'opt'
    if t.op == 'field' and t.a[2] == 'Some' and fld(t.a[0], 'lookahead', 'LR1Item') is I:
        return 'tok'
    return None
