"""Context shared by the rules: dumped programs, analysed roots, obligations and graph queries."""
import os
import time
import dump
import interp
import mir
import prims
from terms import *

MODELS = os.path.join(dump.VERIF, 'models', 'models.rs')


class Undecided(Exception):
    pass


class Ctx(object):
    def __init__(self, assertions=False):
        self._p = None
        self._roots = {}
        self.assertions = assertions

    @property
    def P(self):
        if self._p is None:
            self._p = mir.Program(dump.dump_repo(self.assertions), dump.dump_file(MODELS, 'vpmodels'))
        return self._p

    def body(self, name):
        b = self.P.bodies.get(name)
        if b is not None:
            return b
        bs = self.P.find(name)
        if len(bs) == 1:
            return bs[0]
        raise Undecided('function %s not found' % name if not bs else 'function %s is ambiguous' % name)

    def run(self, name, opaque=(), atomic=False, bounds=False):
        """Event graph of a root function (everything it calls inlined)."""
        k = (name, tuple(opaque), atomic, bounds)
        if k not in self._roots:
            b = self.body(name)
            I = interp.Interp(self.P, prims, opaque=opaque, atomic=atomic, bounds=bounds)
            try:
                I.run(b)
                err = None
            except interp.Unsupported as e:
                err = 'not analysable: %s' % e
            except RecursionError:
                err = 'not analysable: too deep'
            except (KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
                if os.environ.get('VP_DEBUG'):
                    raise
                err = 'not analysable: %s %s' % (type(e).__name__, e)
            self._roots[k] = (I, err)
        I, err = self._roots[k]
        if err:
            raise Undecided('%s: %s' % (name, err))
        return I


class Report(object):
    """Obligations of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.items = []       # (status, rule, where, detail)
        self.notes = {}
        self.assumptions = []
        self.t0 = time.time()

    def ok(self, rule, where, detail=''):
        self.items.append(('ok', rule, where, detail))

    def viol(self, rule, where, detail=''):
        self.items.append(('violation', rule, where, detail))

    def und(self, rule, where, detail=''):
        self.items.append(('undecided', rule, where, detail))

    def check(self, cond, rule, where, good='', bad=''):
        if cond:
            self.ok(rule, where, good)
        else:
            self.viol(rule, where, bad)
        return cond

    def note(self, k, v):
        self.notes[k] = v

    def count(self, st):
        return len([1 for i in self.items if i[0] == st])


# ---- graph queries -----------------------------------------------------------------------
LOSSY = ('Rem', 'BitAnd', 'Div', 'Shr', 'Shl', 'BitXor', 'BitOr')


def lossy(t, known=()):
    """t is arithmetic over understood numbers in which different numbers come out the same (remainders, masks, shifts, bounds)."""
    hit = False
    todo = [t]
    while todo:
        x = todo.pop()
        if any(x is k for k in known) or x.op in ('int', 'iv', 'len', 'field', 'size'):
            continue
        if x.op == 'arith' and isinstance(x.a[0], str):
            hit = hit or x.a[0] in LOSSY
            todo += [y for y in x.a[1:] if hasattr(y, 'op')]
        elif x.op in ('min', 'max') or x.op == 'opq' and isinstance(x.a[0], str) and x.a[0].split('::')[-1] in ('min', 'max', 'clamp'):
            hit = True
        elif x.op == 'lin':
            todo += list(lin(x)[1])
        elif x.op == 'elem':
            continue
        else:
            return False
    return hit


def where(n):
    return n.span.replace('/repo/', '')


def path(src, goal, avoid=lambda n: False, start=True):
    """A path (list of nodes) from src (a node or list of nodes) to a node satisfying goal that does not
    go through a node satisfying avoid; None when there is none.  src itself is not tested for goal/avoid
    unless start is False."""
    srcs = src if isinstance(src, (list, tuple)) else [src]
    prev = {}
    st = []
    sids = {s.id for s in srcs}
    for s in srcs:
        prev[s.id] = None
        st.append(s)
    if not start:
        for s in srcs:
            if goal(s):
                return [s]
        st = [s for s in st if not avoid(s)]
    i = 0
    while i < len(st):
        n = st[i]
        i += 1
        for m in n.succ:
            seen = m.id in prev
            if seen and m.id not in sids:
                continue
            if goal(m):
                out = [m]
                x = n
                while x is not None:
                    out.append(x)
                    x = prev[x.id]
                return out[::-1]
            if seen:
                continue
            prev[m.id] = n
            if avoid(m):
                continue
            st.append(m)
    return None


def show_path(p, k=8):
    ps = [n for n in p if n.kind in ('cond', 'ins', 'store', 'push', 'panic', 'ret', 'hdr', 'exit', 'pop')]
    if len(ps) > k:
        ps = ps[:k // 2] + [None] + ps[-k // 2:]
    out = []
    for n in ps:
        if n is None:
            out.append('...')
            continue
        if n.kind == 'cond':
            out.append('%s [%s = %s]' % (where(n), show(n.data[0])[:100], show(n.data[1])))
        else:
            out.append('%s %s' % (where(n), n.kind))
    return ' -> '.join(out)


def reaches(n, goal):
    return path(n, goal) is not None


def cond_is(n, atom, val):
    return n.kind == 'cond' and n.data[0] is atom and n.data[1] == val


def discr_cond(n):
    """(value, variant names) of an enum decision node."""
    if n.kind == 'cond' and n.data[0].op == 'discr':
        return n.data[0].a[0], n.data[1]
    return None


def field_name(t):
    return t.a[3] if t.op == 'field' else None


def is_field(t, adt, name):
    return t.op == 'field' and t.a[1] == adt and t.a[3] == name


def _leaves(k, out, path=()):
    if k.op == 'agg' and k.a[2] and not k.a[0].startswith('vpm::'):
        for i, x in enumerate(k.a[2]):
            _leaves(x, out, path + ((k.a[0], k.a[1], i),))
    else:
        out.append((path, k))
    return out


def memos(G):
    """Maps that only store values computed from their own key: {map: [(path of a key part, placeholder)], value}}."""
    by = {}
    bad = set()
    for n in G.nodes:
        if n.kind in ('ins', 'rem', 'slot', 'push', 'clear', 'extend', 'pop', 'store', 'trunc', 'key') and n.data and getattr(n.data[0], 'op', None) == 'new':
            if n.kind == 'ins' and len(n.data) > 4 and n.data[4] == 'map':
                by.setdefault(n.data[0], []).append(n)
            else:
                bad.add(n.data[0])
    out = {}
    for mp, ns in by.items():
        if mp in bad:
            continue
        forms = set()
        for n in ns:
            ls = _leaves(n.data[1], [])
            ph = {}
            for i, (p, x) in enumerate(ls):
                if x.op not in ('int', 'str', 'bool'):
                    ph.setdefault(x, mk('param', 'key%d' % i))
            v = subst(n.data[2], ph)
            if any(x.op in ('iv', 'dv', 'lv', 'seqlv', 'phi', 'opq', 'old', 'unk', 'slot', 'new', 'res') or
                   (x.op == 'field' and x.a[0].op == 'get' and x.a[0].a[0] is mp) for x in walk(v)):
                forms = None
                break
            forms.add((tuple(p for p, x in ls), v))
        if forms and len(forms) == 1:
            out[mp] = next(iter(forms))
    return out


def unmemo(G, t, memo=None):
    """t with look-ups in such maps replaced by what they were computed from."""
    ms = memos(G) if memo is None else memo
    if not ms:
        return t

    def one(x):
        if x.op == 'field' and x.a[2] == 'Some' and x.a[0].op == 'get' and x.a[0].a[0] in ms:
            ps, v = ms[x.a[0].a[0]]
            ls = _leaves(x.a[0].a[1], [])
            if tuple(p for p, _ in ls) == ps:
                return subst(v, {mk('param', 'key%d' % i): y for i, (_, y) in enumerate(ls)})
        return x
    return rewrite(t, one)


class Graph(object):
    """Event graph of a root with loop tables and canonical names for loop-carried values."""

    def __init__(self, I):
        self.I = I
        self.nodes = I.live_nodes
        self.hdrs = {}
        self.exits = {}
        self.sym = {}
        for n in self.nodes:
            if n.kind == 'hdr':
                self.hdrs.setdefault(n.data[0], []).append(n)
                if len(n.data) > 2:
                    for s, k, init in n.data[2]:
                        if s is not init:
                            self.sym[s] = init
            elif n.kind == 'exit':
                self.exits.setdefault(n.data[0], []).append(n)
        self._root, self.alias = {}, {}

    def kind(self, *ks):
        return [n for n in self.nodes if n.kind in ks]

    def unold(self, t):
        if t.op == 'old':
            return mk(t.a[0], t.a[1].a[0], *t.a[2:])
        return t

    def root(self, t):
        """Identity of an updated value: the initial value it derives from by in-place updates."""
        r = self._root.get(t)
        if r is not None:
            return r
        x = t
        seen = set()
        while x not in seen:
            seen.add(x)
            x = self.unold(x)
            if x in self.sym:
                x = self.sym[x]
            elif x.op == 'setelem':
                x = x.a[0]
            elif x.op == 'field':
                b = self.root(x.a[0]) if x.a[0].op in ('lv', 'old', 'setelem') else None
                if b is None or b is x.a[0]:
                    break
                if b.op == 'agg':
                    y = self.I.field(b, x.a[1], x.a[2], self.I.p.field_index(x.a[1], x.a[2], x.a[3]) or 0, x.a[3])
                    x = y
                else:
                    x = mk('field', b, *x.a[1:])
        y = self.alias.get(x)
        if y is not None:
            x = y
        self._root[t] = x
        return x

    def copies(self):
        """Sets that are filled by a complete copy of another, finished, set -> that set."""
        ins = {}
        for n in self.nodes:
            if n.kind in ('ins', 'push', 'extend', 'clear', 'remove', 'retain') and isinstance(n.data[0], T) and n.data[0].op != 'ptr':
                r = self.root(n.data[0])
                if r.op == 'new' and 'set' in str(r.a[0]):
                    ins.setdefault(r, []).append(n)
        out = {}
        for Y, ns in ins.items():
            src = set()
            for n in ns:
                v = n.data[1] if len(n.data) > 1 else None
                if n.kind == 'ins' and v is not None and v.op == 'elem' and v.a[0].op == 'setseq' and v.a[1].op == 'iv' and n.loops and n.loops[-1] == v.a[1].a[0] and \
                        self.root(v.a[0].a[0]).op == 'new':
                    src.add((v.a[1].a[0], v.a[0], self.root(v.a[0].a[0])))
                else:
                    src.add(None)
            if len(src) != 1 or None in src:
                continue
            L, seq, Z = list(src)[0]
            ids = {n.id for n in ns}
            if Z is Y or any(x.data[1] is None and not self.only_panics(x) or x.data[1] is not None and not (x.data[1].op == 'len' and x.data[1].a[0] is seq) for x in self.exits.get(L, [])):
                continue
            if any(path(h, lambda m: m.kind == 'hdr' and m.data[0] == L, lambda m: m.id in ids or m.kind == 'exit' and m.data[0] == L) for h in self.hdrs.get(L, [])):
                continue
            whole = lambda m: m.kind == 'exit' and m.data[0] == L and m.data[1] is not None
            ends = [x for x in self.exits.get(L, []) if x.data[1] is not None]
            new = lambda r: (lambda m: m.kind == 'new' and self.root(m.data[0]) is r)
            if any(path(m, lambda k: k.kind == 'ret', whole) for m in self.nodes if new(Y)(m)) or \
                    path(ends, lambda m: m.kind == 'hdr' and m.data[0] == L, new(Y)) or \
                    any(path(x, lambda m: m in ins.get(Z, ()), new(Z)) for x in ends):
                continue
            out[Y] = Z
        return {y: z for y, z in out.items() if z not in out}

    def loop_of(self, iv):
        return iv.a[0] if iv.op == 'iv' else None

    def iteration_end(self, n, strict=None):
        """Nodes that end an iteration of one of the loops around n, or the function."""
        ls = set(n.loops)
        return lambda m: (m.kind == 'hdr' and m.data[0] in ls) or m.kind == 'ret'

    def full_exit(self, n):
        return n.kind == 'exit' and n.data[1] is not None

    def only_panics(self, n):
        return path(n, lambda m: m.kind in ('ret', 'hdr'), start=True) is None and \
            path(n, lambda m: m.kind == 'ret') is None
