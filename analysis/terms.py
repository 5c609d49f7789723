"""Hash-consed terms and linear arithmetic over them."""


class T(object):
    __slots__ = ('op', 'a', 'id', '_ptrs', '_subs', '_h')
    table = {}
    count = 0

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = T.table.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        T.count += 1
        t.id = T.count
        t._h = t.id * 2654435761 & 0x7fffffffffff
        t._ptrs = None
        t._subs = None
        T.table[k] = t
    return t


def INT(n): return mk('int', n)
TRUE = mk('bool', True)
FALSE = mk('bool', False)
def BOOL(b): return TRUE if b else FALSE
def STR(s): return mk('str', s)
def AGG(adt, variant, fields): return mk('agg', adt, variant, tuple(fields))
UNIT = AGG('tuple', '', ())
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
NONE = AGG(OPTION, 'None', ())
def SOME(x): return AGG(OPTION, 'Some', (x,))
def OK(x): return AGG(RESULT, 'Ok', (x,))
def ERR(x): return AGG(RESULT, 'Err', (x,))
def TUP(*xs): return AGG('tuple', '', xs)
UNINIT = mk('uninit')


def children(t):
    """Direct sub-terms of t."""
    out = []
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return out


def ptrs(t):
    """Locations of all pointers inside t."""
    if t._ptrs is None:
        if t.op == 'ptr':
            s = {t.a[0]}
            for c in children(t):
                s |= ptrs(c)
            t._ptrs = frozenset(s)
        else:
            s = frozenset()
            for c in children(t):
                p = ptrs(c)
                if p:
                    s = s | p
            t._ptrs = s
    return t._ptrs


def subterms(t, seen=None):
    """Set of all sub-terms of t (memoised)."""
    if t._subs is None:
        s = {t}
        for c in children(t):
            s |= subterms(c)
        t._subs = frozenset(s) if len(s) < 4000 else s
    return t._subs


def contains(t, x):
    return x in subterms(t)


def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def remake(x, na, go):
    """x with its arguments replaced by na (renormalised)."""
    if na == x.a:
        r = x
    elif x.op == 'lin':
        r = INT(x.a[0])
        for (tt, c) in x.a[1]:
            r = add(r, mul(go(tt), c))
    elif x.op == 'gt0':
        r = gt0(go(x.a[0]))
    elif x.op == 'eq0':
        r = eq0(go(x.a[0]))
    elif x.op == 'not':
        r = NOT(go(x.a[0]))
    elif x.op == 'elem':
        r = elem(*na)
    elif x.op == 'len':
        r = length(*na)
    elif x.op == 'seq':
        r = SEQ(na[0])
    else:
        r = mk(x.op, *na)
    return r


def rewrite(t, f):
    """Every sub-term x replaced by f(x), innermost first, wherever it stands."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = f(remake(x, tuple(goa(y) for y in x.a), go))
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        if isinstance(y, frozenset):
            return frozenset(goa(z) for z in y)
        return y
    return go(t)


def subst(t, m, memo=None):
    """Replace sub-terms according to dict m; renormalises arithmetic."""
    if memo is None:
        memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'seqrep':
            # the loop's counter is bound in the alternatives
            iv = mk('iv', x.a[0])
            m2 = {k: v for k, v in m.items() if k is not iv and not contains(k, iv)}
            if len(m2) < len(m):
                if not m2:
                    r = mk('seqrep', x.a[0], go(x.a[1]), x.a[2], *[goa(y) for y in x.a[3:]])
                else:
                    y = mk('seqrep', x.a[0], EMPTY, x.a[2], *x.a[3:])
                    y = subst(y, m2)
                    r = mk('seqrep', x.a[0], go(x.a[1]), *y.a[2:])
                memo[x] = r
                return r
        na = tuple(goa(y) for y in x.a)
        r = remake(x, na, go)
        memo[x] = r
        return r

    def goa(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(goa(z) for z in y)
        if isinstance(y, frozenset):
            return frozenset(goa(z) for z in y)
        return y
    return go(t)


# ---- linear arithmetic -----------------------------------------------------------------
def lin(t):
    """(const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mklin(c1 + c2, d1)


def mul(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, mul(b, -1))


def isnum(t):
    return t.op in ('int', 'lin')


def nonneg(t):
    c, d = lin(t)
    return c >= 0 and all(v >= 0 for v in d.values()) and t.op != 'int' or (t.op == 'int' and t.a[0] >= 0)


def NOT(t):
    if t.op == 'bool':
        return BOOL(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def gt0(t):
    """t > 0 (t over the integers; non-constant atoms are unsigned quantities)."""
    c, d = lin(t)
    if not d:
        return BOOL(c > 0)
    if all(v > 0 for v in d.values()) and c > 0:
        return TRUE
    if all(v < 0 for v in d.values()) and c <= 0:
        return FALSE
    # canonical polarity: smallest-id atom has positive coefficient
    k = min(d, key=lambda x: x.id)
    if d[k] < 0:
        return NOT(mk('gt0', mklin(1 - c, {x: -v for x, v in d.items()})))
    return mk('gt0', mklin(c, d))


def eq0(t):
    c, d = lin(t)
    if not d:
        return BOOL(c == 0)
    if all(v > 0 for v in d.values()):
        if c > 0:
            return FALSE
        if c == 0 and len(d) == 1:
            return NOT(gt0(list(d)[0]))
    if all(v < 0 for v in d.values()):
        if c < 0:
            return FALSE
        if c == 0 and len(d) == 1:
            return NOT(gt0(list(d)[0]))
    k = min(d, key=lambda x: x.id)
    if d[k] < 0:
        return mk('eq0', mklin(-c, {x: -v for x, v in d.items()}))
    return mk('eq0', mklin(c, d))


# ---- sequences -------------------------------------------------------------------------
def SEQ(parts):
    """Sequence from parts: ('e', v) single element or ('s', seqterm) splice."""
    out = []
    for p in parts:
        if p[0] == 's':
            if p[1].op == 'seq':
                out.extend(p[1].a[0])
                continue
        out.append(p)
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return mk('seq', tuple(out))


EMPTY = mk('seq', ())


def parts(s):
    if s.op == 'seq':
        return s.a[0]
    return (('s', s),)


def cat(a, b):
    return SEQ(parts(a) + parts(b))


def append(s, v):
    return SEQ(parts(s) + (('e', v),))


def length(s):
    if s.op == 'seq':
        r = INT(0)
        for p in s.a[0]:
            r = add(r, INT(1) if p[0] == 'e' else length(p[1]))
        return r
    if s.op == 'agg' and s.a[0] == 'array':
        return INT(len(s.a[2]))
    if s.op == 'slice':
        # slice(base, from, to|None)
        b, f, to = s.a
        return sub(length(b) if to is None else to, f)
    if s.op == 'rev':
        return length(s.a[0])
    if s.op == 'perm' and 'dedup' not in s.a[0]:
        return length(s.a[1])
    if s.op == 'range':
        return sub(s.a[1], s.a[0])
    if s.op == 'seqrep':
        base, alts, trip = s.a[1], s.a[2], s.a[3]
        if trip is not None and all(len(p) == 1 and p[0][0] == 'e' for (_, p) in alts):
            return add(length(base), trip)
    if s.op == 'str':
        return INT(len(s.a[0]))
    if s.op in ('setelem',):
        return length(s.a[0])
    if s.op == 'fill':
        return s.a[1]
    if s.op == 'mapproj':
        return length(s.a[0])
    return mk('len', s)


def perm(how, s):
    if s.op == 'mapproj' and 'dedup' not in how:
        return mk('mapproj', perm(how, s.a[0]), s.a[1])
    return mk('perm', how, s)


def unperm(s):
    """The sequence whose elements s has, in some order (dedup: some of them)."""
    while s.op in ('perm', 'rev', 'slice'):
        s = s.a[1] if s.op == 'perm' else s.a[0]
    return s


def elem(s, i):
    if s.op == 'seq':
        ps = s.a[0]
        if i.op == 'int':
            n = 0
            for p in ps:
                if p[0] != 'e':
                    break
                if n == i.a[0]:
                    return p[1]
                n += 1
            return mk('elem', s, i)
        off = INT(0)
        for p in ps:
            if p[0] == 'e':
                if off is i:
                    return p[1]
                off = add(off, INT(1))
            else:
                off = add(off, length(p[1]))
        return mk('elem', s, i)
    if s.op == 'agg' and s.a[0] == 'array' and i.op == 'int' and i.a[0] < len(s.a[2]):
        return s.a[2][i.a[0]]
    if s.op == 'slice':
        return elem(s.a[0], add(s.a[1], i))
    if s.op == 'rev':
        return elem(s.a[0], sub(sub(length(s.a[0]), INT(1)), i))
    if s.op == 'range':
        return add(s.a[0], i)
    if s.op == 'setelem' and s.a[1] is i:
        return s.a[2]
    if s.op == 'fill':
        return s.a[0]
    if s.op == 'mapproj':
        return mk('field', elem(s.a[0], i), 'tuple', '', str(s.a[1].a[0]))
    return mk('elem', s, i)


def rev(s):
    if s.op == 'rev':
        return s.a[0]
    if s.op == 'seq':
        return SEQ(tuple((p if p[0] == 'e' else ('s', rev(p[1]))) for p in reversed(s.a[0])))
    if s.op == 'seqrep' and s.a[1] is EMPTY and s.a[3] is not None and all(len(p) == 1 and p[0][0] == 'e' for _, p in s.a[2]) and \
            not any(x.op in ('lv', 'seqlv') and x.a[0] == s.a[0] for x in walk(mk('x', s.a[2]))):
        # one element per turn: the turns in the other order
        iv = mk('iv', s.a[0])
        return mk('seqrep', s.a[0], EMPTY, subst(mk('x', s.a[2]), {iv: sub(sub(s.a[3], INT(1)), iv)}).a[0], *s.a[3:])
    return mk('rev', s)


def slice_(s, f, to=None):
    if f.op == 'int' and f.a[0] == 0 and to is None:
        return s
    if s.op == 'slice':
        return slice_(s.a[0], add(s.a[1], f), (add(s.a[1], to) if to is not None else s.a[2]))
    if s.op == 'range':
        return mk('range', add(s.a[0], f), s.a[1] if to is None else add(s.a[0], to))
    return mk('slice', s, f, to)


# ---- strings ---------------------------------------------------------------------------
def CAT(ps):
    """String concatenation; parts are string-valued terms ('disp' for formatted values)."""
    out = []
    for p in ps:
        if p.op == 'cat':
            qs = p.a[0]
        else:
            qs = (p,)
        for q in qs:
            if q.op == 'str' and q.a[0] == '':
                continue
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = STR(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return STR('')
    if len(out) == 1:
        return out[0]
    return mk('cat', tuple(out))


# ---- printing --------------------------------------------------------------------------
def short(p):
    return p.split('::')[-1] if isinstance(p, str) and '<' not in p else str(p)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        if isinstance(t, frozenset):
            return '{' + ','.join(sorted(show(x, d) for x in t)) + '}'
        return str(t)
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o in ('int',):
        return str(a[0])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o == 'str':
        return repr(a[0])
    if o == 'agg':
        n = a[1] or short(a[0])
        if a[0] == 'tuple':
            return '(' + ', '.join(s(x) for x in a[2]) + ')'
        if a[0] == 'array':
            return '[' + ', '.join(s(x) for x in a[2]) + ']'
        if not a[2]:
            return n
        return n + '(' + ', '.join(s(x) for x in a[2]) + ')'
    if o == 'lin':
        r = []
        for k, v in a[1]:
            r.append(('' if v == 1 else '-' if v == -1 else '%d*' % v) + s(k))
        if a[0]:
            r.append(str(a[0]))
        return '+'.join(r)
    if o == 'gt0':
        return s(a[0]) + '>0'
    if o == 'eq0':
        return s(a[0]) + '==0'
    if o == 'not':
        return '!' + s(a[0])
    if o == 'field':
        return s(a[0]) + '.' + (a[2] + '.' if a[2] else '') + str(a[3])
    if o == 'elem':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if o == 'len':
        return '|' + s(a[0]) + '|'
    if o == 'slice':
        return s(a[0]) + '[' + s(a[1]) + '..' + (s(a[2]) if a[2] is not None else '') + ']'
    if o == 'param':
        return '$' + str(a[0])
    if o == 'iv':
        return 'i' + loopname(a[0])
    if o == 'lv':
        return 'lv%s:%s' % (loopname(a[0]), a[1])
    if o == 'seqlv':
        return '<%s acc%s>' % (s(a[2]), loopname(a[0]))
    if o == 'seqrep':
        return '<%s +rep%s{%s}>' % (s(a[1]) if a[1] is not EMPTY else '', loopname(a[0]),
                                    ' | '.join(' '.join(s(p) for p in al[1]) for al in a[2]))
    if o == 'seq':
        return '[' + ', '.join(('' if p[0] == 'e' else '*') + s(p[1]) for p in a[0]) + ']'
    if o == 'new':
        return 'new%s@%s' % (a[0], short(a[1]))
    if o == 'ptr':
        return '&' + str(a[0][1]) + ''.join('.' + s(x) for x in a[1])
    return o + '(' + ', '.join(s(x) for x in a) + ')'


_ln = {}


def loopname(l):
    if l not in _ln:
        _ln[l] = len(_ln)
    return '#%d' % _ln[l]
