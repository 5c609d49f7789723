"""Abstract interpreter over MIR: value-numbering dataflow with inlining, producing an event graph.

Nothing of the analysed code is executed: values are symbolic terms, branches that the known facts do
not decide are followed both ways, loops are analysed once per abstract header state (fixpoint), and
states that agree on all live values are joined (facts intersected).  The result of analysing a root
function is a graph whose nodes are events (insert, push, store, call, panic, cast, return),
decisions (atom, outcome), loop headers and joins.
"""
import re
import sys
from terms import *
import mir

sys.setrecursionlimit(20000)

SEQITER = 'vp::SeqIter'
CLOSURE = 'closure'
INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
        'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
BOOLOPS = {'gt0', 'eq0', 'not', 'eq', 'has', 'peek', 'pempty', 'in', 'lt', 'fits', 'bool'}


class Unsupported(Exception):
    pass


class Node(object):
    __slots__ = ('id', 'kind', 'data', 'facts', 'span', 'loops', 'frame', 'succ', 'pred', 'inner')

    def __repr__(self):
        return '%d:%s' % (self.id, self.kind)


class State(object):
    __slots__ = ('mem', 'facts', 'ver', 'node')

    def __init__(self, mem, facts, ver, node):
        self.mem = mem
        self.facts = facts
        self.ver = ver
        self.node = node

    def copy(self):
        return State(dict(self.mem), self.facts, self.ver, self.node)


class Frame(object):
    __slots__ = ('id', 'parent', 'bb', 'body', 'depth', 'keys', 'args')


MERGE = 3


def covers(m, f):
    d = dict(f)
    return all(k in d and (d[k] == v or (isinstance(v, frozenset) and isinstance(d[k], frozenset) and d[k] <= v)) for k, v in m)


def merge_facts(fs, limit=24):
    """Disjunction of conjunctions of facts, simplified; over-approximated by the common facts when too long."""
    fs = list(dict.fromkeys(fs))
    again = True
    while again and len(fs) > 1:
        again = False
        # subsumed alternatives
        keep = [f for f in fs if not any(g < f for g in fs)]
        if len(keep) < len(fs):
            fs, again = keep, True
            continue
        for i in range(len(fs)):
            for j in range(i + 1, len(fs)):
                a, b = fs[i] - fs[j], fs[j] - fs[i]
                if len(a) == 1 and len(b) == 1:
                    (ka, va), = a
                    (kb, vb), = b
                    if ka is kb:
                        if isinstance(va, frozenset) and isinstance(vb, frozenset):
                            m = (fs[i] & fs[j]) | {(ka, va | vb)}
                        elif isinstance(va, bool) and isinstance(vb, bool) and va != vb:
                            m = fs[i] & fs[j]
                        else:
                            continue
                        fs = [f for k, f in enumerate(fs) if k not in (i, j)] + [m]
                        again = True
                        break
            if again:
                break
    if len(fs) > limit:
        m = set(fs[0])
        for f in fs[1:]:
            m &= f
        fs = [frozenset(m)]
    return fs


class Interp(object):
    CAP = 400

    def __init__(self, prog, prims, name='', opaque=(), atomic=False, bounds=False):
        self.bounds = bounds     # positions used to look into sequences, and subtractions, are recorded
        self.p = prog
        self.prims = prims
        self.name = name
        self.opaque = set(opaque)
        self.atomic = atomic     # results of opaque functions are symbols; their arguments are in atoms
        self.atoms = {}
        self.nodes = []
        self.frames = []
        self.frame_ids = {}
        self.loopstack = []      # active loop ids
        self.mods = {}           # loop id -> {leaf: kind}
        self.hdrinfo = {}        # header node -> info of its loop
        self.recargs = {}        # recursive call -> arguments of the call it is part of
        self.loopinfo = {}       # loop id -> info of the last pass
        self.typ = {}
        self.unknown = []        # unmodelled constructs met
        self.cur = None          # (frame, span) of the current statement
        self.stats = {'blocks': 0, 'calls': 0, 'funcs': set(), 'loops': 0, 'maxstates': 0}
        self.cur_span = ''
        self.nt_cache = {}
        self.opaque_calls = {}
        self.newin = {}
        self.fresh = set()
        self.rawof = {}
        # parse functions of the grammar's own types: calls of them are kept as one step
        self.parsers = {k: t for (tr, t, m), k in prog.impls.items()
                        if tr == 'syn::parse::Parse' and m == 'parse' and t in prims.AST_TYPES}

    # ---- graph ---------------------------------------------------------------------------
    def newnode(self, kind, data, st=None, facts=None):
        n = Node()
        n.id = len(self.nodes)
        n.kind = kind
        n.data = data
        n.facts = st.facts if st is not None else (facts or {})
        n.span = self.repo_span()
        n.inner = self.cur_span
        n.loops = tuple(self.loopstack)
        n.frame = self.cur
        n.succ = []
        n.pred = []
        self.nodes.append(n)
        return n

    def rollback(self, base):
        """Forgets the nodes of an abandoned pass: the next pass names its writes and joins alike."""
        del self.nodes[base:]
        self.fresh = {i for i in self.fresh if i < base}
        for d in (self.hdrinfo, self.recargs):
            for i in [i for i in d if i >= base]:
                del d[i]

    def edge(self, a, b):
        a.succ.append(b)
        b.pred.append(a)

    def emit(self, st, kind, *data):
        n = self.newnode(kind, data, st)
        if st.node is not None:
            self.edge(st.node, n)
        st.node = n
        return n

    def repo_span(self):
        """Span of the innermost frame that belongs to the analysed crate."""
        f = self.cur
        sp = self.cur_span
        while f is not None and f.body.model:
            b = f.parent
            if b is None:
                break
            sp = b.body.blocks[f.bb]['t']['sp']
            f = b
        return sp

    # ---- facts ---------------------------------------------------------------------------
    def decide(self, st, atom):
        if atom.op == 'bool':
            return atom.a[0]
        if atom.op == 'not':
            r = self.decide(st, atom.a[0])
            return None if r is None else not r
        r = st.facts.get(atom)
        if r is not None:
            return r
        if atom.op == 'has' and atom.a[2] in self.fresh:
            return False
        if atom.op == 'gt0':
            return self.decide_gt(st, atom.a[0])
        if atom.op == 'eq0':
            c, d = lin(atom.a[0])
            # x == 0 decided by x > 0 / -x > 0
            for t in (atom.a[0], mul(atom.a[0], -1)):
                g = gt0(t)
                if g.op == 'bool':
                    if g.a[0]:
                        return False
                    continue
                neg = g.op == 'not'
                v = st.facts.get(g.a[0] if neg else g)
                if v is not None and (v != neg):
                    return False
        return None

    def decide_gt(self, st, t):
        # t > 0 from single facts: f > 0 and t - f >= 0, or f <= 0 and f - t >= 0
        for f, v in st.facts.items():
            if f.op == 'gt0':
                ft = f.a[0]
                if v:
                    dlt = sub(t, ft)
                    if dlt.op == 'int' and dlt.a[0] >= 0:
                        return True
                    # f>=1  and  t + f <= 1 -> not t>0
                    s = add(t, ft)
                    if s.op == 'int' and s.a[0] <= 1:
                        return False
                else:
                    dlt = sub(ft, t)
                    if dlt.op == 'int' and dlt.a[0] >= 0:
                        return False
                    s = add(t, ft)     # f<=0: t = s - f >= s
                    if s.op == 'int' and s.a[0] >= 1:
                        return True
        return None

    def norm_atom(self, atom):
        if atom.op == 'eq0':
            c, d = lin(atom.a[0])
            ivs = [k for k in d if k.op == 'iv']
            if len(ivs) == 1 and abs(d[ivs[0]]) == 1:
                t = atom.a[0] if d[ivs[0]] < 0 else mul(atom.a[0], -1)
                c2, d2 = lin(t)
                if len(d2) >= 2 and all(v > 0 and k.op == 'len' for k, v in d2.items() if k is not ivs[0]):
                    return NOT(gt0(t))
        if atom.op == 'not':
            return NOT(self.norm_atom(atom.a[0]))
        return atom

    def setfact(self, st, atom, val):
        if atom.op == 'bool':
            return
        if atom.op == 'not':
            return self.setfact(st, atom.a[0], not val)
        f = dict(st.facts)
        f[atom] = val
        st.facts = f

    def fork(self, st, atom):
        """[(state, bool)] for the possible outcomes of atom."""
        atom = self.norm_atom(atom)
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d)]
        out = []
        for v in (True, False):
            s = st.copy()
            self.setfact(s, atom, v)
            a, vv = (atom.a[0], not v) if atom.op == 'not' else (atom, v)
            self.emit(s, 'cond', a, vv)
            out.append((s, v))
        return out

    def fork_fact(self, st, k, v):
        """The states in which the condition k has value v."""
        if k.op == 'discr':
            ps = st.facts.get(k)
            v = v if ps is None else v & ps
            if not v:
                return []
            if v == ps:
                return [st]
            s = st.copy()
            self.setfact(s, k, v)
            self.emit(s, 'cond', k, v)
            return [s]
        return [s for s, ok in self.fork(st, k) if ok is v]

    def possible(self, st, v, adt):
        """Possible variant names of the enum value v."""
        if v.op == 'agg' and v.a[0] == 'vp::Entry':
            d = self.decide(st, mk('has', *v.a[2]))
            return {'Occupied', 'Vacant'} if d is None else {'Occupied'} if d else {'Vacant'}
        if v.op == 'agg':
            return {v.a[1]}
        if v.op == 'get':
            d = self.decide(st, HAS(v))
            if d is not None:
                return {'Some'} if d else {'None'}
            return {'Some', 'None'}
        s = st.facts.get(mk('discr', v))
        if s is not None:
            return set(s)
        return set(self.p.variants(adt))

    def restrict(self, st, v, adt, names):
        """Copy of st with v restricted to variants names."""
        s = st.copy()
        if v.op == 'agg' and v.a[0] == 'vp::Entry':
            self.setfact(s, mk('has', *v.a[2]), 'Occupied' in names)
            self.emit(s, 'cond', mk('has', *v.a[2]), 'Occupied' in names)
            return s
        if v.op == 'get':
            self.setfact(s, HAS(v), 'Some' in names)
            self.emit(s, 'cond', HAS(v), 'Some' in names)
            return s
        f = dict(s.facts)
        f[mk('discr', v)] = frozenset(names)
        s.facts = f
        self.emit(s, 'cond', mk('discr', v), frozenset(names))
        return s

    def split(self, st, v, adt):
        """[(state, variant name)]"""
        ps = self.possible(st, v, adt)
        if len(ps) == 1:
            return [(st, next(iter(ps)))]
        return [(self.restrict(st, v, adt, {n}), n) for n in self.p.variants(adt) if n in ps]

    # ---- memory --------------------------------------------------------------------------
    def transparent(self, adt):
        r = self.nt_cache.get(adt)
        if r is None:
            r = False
            a = self.p.adts.get(adt)
            if a and not a['enum'] and len(a['variants']) == 1 and len(a['variants'][0]['fields']) == 1 and a['local']:
                t = self.p.field_type(a, 0)
                if t is not None and t['s'] in INTS:
                    r = True
            self.nt_cache[adt] = r
        return r

    # An element of a sequence built by a loop may refer to counters of that loop; it then stays symbolic
    # (rawof has what it was built from), and only its parts that do not are given by the loop's body.
    def settle(self, sym, r, Ls):
        if not Ls or self.clean(r, Ls):
            return r
        self.rawof[sym] = (r, Ls)
        return sym

    def clean(self, t, Ls):
        return not any(x.op in ('lv', 'seqlv', 'phi') and x.a[0] in Ls for x in subterms(t))

    def field(self, v, adt, variant, idx, name):
        if v in self.rawof:
            raw, Ls = self.rawof[v]
            y = self.field1(raw, adt, variant, idx, name)
            sym = self.field1(v, adt, variant, idx, name)
            y, L2 = self.rawof.get(y, (y, frozenset()))
            return self.settle(sym, y, Ls | L2)
        return self.field1(v, adt, variant, idx, name)

    def field1(self, v, adt, variant, idx, name):
        if v.op == 'agg' and v.a[0] == 'vp::Entry' and variant in ('Occupied', 'Vacant'):
            return v
        if v.op == 'agg':
            if v.a[0] == adt or adt is None or v.a[0] in ('tuple', CLOSURE):
                if idx < len(v.a[2]):
                    return v.a[2][idx]
            return mk('bad', v, idx)
        if v.op == 'uninit':
            return UNINIT
        if adt and self.transparent(adt):
            return v
        if v.op == 'get' and variant == 'Some':
            return mk('field', v, OPTION, 'Some', '0')
        if adt == OPTION or adt == RESULT:
            name = '0'
        return mk('field', v, adt or 'tuple', variant or '', name if name is not None else str(idx))

    def proj(self, st, v, step):
        if v.op == 'ptr':
            v = self.load(st, v.a[0], v.a[1])
        if step[0] == 'f':
            return self.field(v, step[1], step[2], step[3], step[4])
        if step[0] == 'i':
            return self.elem(st, v, step[1])
        if step[0] == 'sub':
            return slice_(v, step[1], step[2])
        raise Unsupported('proj %s' % (step,))

    def elem(self, st, v, i):
        if v.op == 'mutseq':
            return mk('ptr', v.a[0], v.a[1] + (('i', i),))
        if v.op == 'slice' or v.op == 'rev':
            e = elem(v, i)
            if e.op == 'elem' and e.a[0] is not v:
                return self.elem(st, e.a[0], e.a[1])
            return e
        if v in self.rawof:
            raw, Ls = self.rawof[v]
            y = self.elem(st, raw, i)
            y, L2 = self.rawof.get(y, (y, frozenset()))
            return self.settle(mk('elem', v, i), y, Ls | L2)
        if v.op == 'seqrep':
            L, base, alts, trip = v.a[0], v.a[1], v.a[2], v.a[3]
            if base is EMPTY and len(alts) == 1 and len(alts[0][1]) == 1 and alts[0][1][0][0] == 'e':
                x = alts[0][1][0][1]
                if not self.has_new(x, L):
                    return self.settle(mk('elem', v, i), subst(x, {mk('iv', L): i}), frozenset([L]))
        if v.op == 'zeros':
            return v.a[0]
        return elem(v, i)

    def has_new(self, t, L):
        """A container that every turn of the loop makes anew."""
        return any(x.op == 'new' and L in self.newin.get(x, (L,)) for x in walk(t))

    def load(self, st, loc, path):
        v = st.mem.get(loc)
        if v is None:
            v = mk('cell', *loc) if loc[0] == 'slot' else UNINIT
        for s in path:
            v = self.proj(st, v, s)
        return v

    def store(self, st, loc, path, val):
        if path:
            val = self.upd(st, st.mem.get(loc, UNINIT), path, val)
        st.mem[loc] = val

    def upd(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        if v.op == 'ptr':
            raise Unsupported('store through shared pointer')
        if s[0] == 'f':
            adt, variant, idx, name = s[1:5]
            if adt and v.op != 'agg' and self.transparent(adt):
                return self.upd(st, v, path[1:], val)
            if v.op != 'agg':
                v = self.expand(v, adt, variant, idx)
            fs = list(v.a[2])
            while len(fs) <= idx:
                fs.append(UNINIT)
            fs[idx] = self.upd(st, fs[idx], path[1:], val)
            return self.agg(v.a[0], v.a[1], fs)
        if s[0] == 'i':
            e = self.elem(st, v, s[1])
            n = self.upd(st, e, path[1:], val)
            return setelem(v, s[1], n)
        raise Unsupported('upd')

    def expand(self, v, adt, variant, idx):
        a = self.p.adts.get(adt) if adt else None
        if a is None:
            return AGG('tuple', '', [UNINIT if v.op == 'uninit' else mk('field', v, 'tuple', '', str(k)) for k in range(idx + 1)])
        vd = a['variants'][0]
        for x in a['variants']:
            if x['name'] == variant:
                vd = x
        fs = [self.field(v, adt, variant, k, f['name']) for k, f in enumerate(vd['fields'])]
        return mk('agg', adt, vd['name'] if a['enum'] else '', tuple(fs))

    def agg(self, adt, variant, fs):
        a = self.p.adts.get(adt)
        if a is not None and not a['enum']:
            variant = ''
        if a is not None and len(fs) == 1 and self.transparent(adt):
            return fs[0]
        # eta: rebuilding a value from its own fields
        if fs and fs[0].op == 'field' and fs[0].a[1] == (adt or 'tuple'):
            t = fs[0].a[0]
            if a is not None:
                vd = next((x for x in a['variants'] if x['name'] == variant), a['variants'][0])
                names = [f['name'] for f in vd['fields']]
            else:
                names = [str(i) for i in range(len(fs))]
            if len(names) == len(fs) and (len(fs) > 1 or a is not None) and all(
                    f.op == 'field' and f.a[0] is t and f.a[1] == adt and f.a[3] == nm and
                    (f.a[2] == variant or not variant or not a['enum']) for f, nm in zip(fs, names)):
                return t
        return AGG(adt, variant, fs)

    def resolve(self, st, fr, place):
        """Place -> (loc, path)."""
        loc = (fr.id, place[0])
        path = ()
        variant = ''
        for e in place[1:]:
            if isinstance(e, str):
                v = self.load(st, loc, path)
                if v.op == 'ptr':
                    loc, path = v.a[0], v.a[1]
                continue
            if 'v' in e:
                variant = e['v']
                continue
            v = None
            if path == () or path[-1][0] != 'f':
                v = self.load(st, loc, path)
            else:
                v = self.load(st, loc, path)
            if v.op == 'ptr':
                loc, path = v.a[0], v.a[1]
            if 'f' in e:
                path += (('f', e.get('a'), variant, e['f'], e.get('n')),)
                variant = ''
                if 't' in e:
                    self.note(self.load(st, loc, path), fr.body.crate, e['t'])
            elif 'i' in e:
                idx = st.mem.get((fr.id, e['i']), UNINIT)
                path += (('i', idx),)
            elif 'ci' in e:
                v = self.load(st, loc, path)
                idx = sub(length(v), INT(e['ci'])) if e['end'] else INT(e['ci'])
                path += (('i', idx),)
            elif 'sub' in e:
                v = self.load(st, loc, path)
                to = sub(length(v), INT(e['to'])) if e['end'] else INT(e['to'])
                path += (('sub', INT(e['sub']), to if not (e['end'] and e['to'] == 0) else None),)
            else:
                raise Unsupported('place')
        return loc, path

    def place_type(self, fr, place):
        """Type entry of the place when it is syntactically evident."""
        c = fr.body.crate
        if len(place) == 1:
            return c.types[fr.body.locals[place[0]]['ty']]
        for e in reversed(place[1:]):
            if isinstance(e, dict) and 't' in e:
                return c.types[e['t']]
            if isinstance(e, str):
                continue
            return None
        t = c.types[fr.body.locals[place[0]]['ty']]
        for e in place[1:]:
            if isinstance(e, str) and 't' in t:
                t = c.types[t['t']]
        return t

    def note(self, v, crate, tid):
        """Remember the static type of an opaque value."""
        if v.op in ('agg', 'ptr', 'int', 'bool', 'str', 'seq', 'uninit', 'lin') or v in self.typ:
            return
        t = crate.types[tid]
        while t['k'] in ('ref', 'ptr') or (t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box'):
            t = crate.types[t['t'] if 't' in t else t['args'][0]]
        if t['k'] in ('param', 'other', 'infer'):
            return
        self.typ[v] = (t, crate)

    def typeof(self, v):
        r = self.typ.get(v)
        return r[0] if r else None

    # ---- operands ------------------------------------------------------------------------
    def operand(self, st, fr, o):
        if 'copy' in o or 'move' in o:
            pl = o.get('copy') or o.get('move')
            loc, path = self.resolve(st, fr, pl)
            v = self.load(st, loc, path)
            if len(pl) == 1:
                self.note(v, fr.body.crate, fr.body.locals[pl[0]]['ty'])
            return v
        if 'const' in o:
            return self.konst(st, fr, o['const'])
        return FALSE   # runtime checks

    def konst(self, st, fr, c):
        if 'fn' in c:
            f = c['fn']
            return mk('fn', f['path'], f.get('resolved_key') or f.get('key') or '', FnRef(f, fr.body.crate))
        if 'bool' in c:
            return BOOL(c['bool'])
        if 'int' in c:
            return INT(c['int'])
        if 'char' in c:
            return mk('char', c['char'])
        if 'str' in c:
            return STR(c['str'])
        if 'bytes' in c:
            return mk('bytes', tuple(c['bytes']))
        if 'zst' in c:
            t = fr.body.crate.types[c['ty']]
            if t['k'] == 'adt':
                return AGG(t['path'], '', ())
            return UNIT
        if 'static' in c:
            return mk('static', c['static'])
        if 'item' in c:
            b = self.p.bodies.get(('vp!' if fr.body.model else '') + c['item'])
            if b is not None and 'promoted' not in c:
                r = self.exec_body(st, fr, -1, b, [])
                rs = [x for x in r if x[0] == 'ret']
                if len(rs) == 1:
                    return rs[0][2]
            return mk('const', c['item'])
        if 'opaque' in c:
            return mk('const', c['opaque'])
        return mk('const', str(sorted(c.items(), key=str)))

    def is_bool(self, fr, o, v):
        if v.op in BOOLOPS:
            return True
        if 'const' in o:
            return fr.body.crate.types[o['const']['ty']]['s'] == 'bool'
        t = self.place_type(fr, o.get('copy') or o.get('move'))
        return t is not None and t['s'] == 'bool'

    # ---- rvalues: returns list of (state, value) -------------------------------------------
    def rvalue(self, st, fr, r):
        k = r['r']
        if k == 'use':
            return [(st, self.operand(st, fr, r['o']))]
        if k == 'ref':
            loc, path = self.resolve(st, fr, r['p'])
            if r['mut']:
                if any(s[0] == 'sub' for s in path):
                    return [(st, self.load(st, loc, path))]
                v = self.load(st, loc, path)
                if v.op == 'ptr':
                    return [(st, v)]
                return [(st, mk('ptr', loc, path))]
            v = self.load(st, loc, path)
            if len(r['p']) == 1:
                self.note(v, fr.body.crate, fr.body.locals[r['p'][0]]['ty'])
            return [(st, v)]
        if k == 'rawptr':
            loc, path = self.resolve(st, fr, r['p'])
            return [(st, mk('ptr', loc, path))]
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            T_ = fr.body.crate.types
            a, b = T_[r['from']]['s'], T_[r['to']]['s']
            if r['k'] == 'IntToInt' and not fr.body.model:
                if INTS.get(b, 64) < INTS.get(a, 64) or a[0] == 'i' and b[0] == 'u' and a != 'isize':
                    if v.op != 'int':
                        self.emit(st, 'cast', v, a, b)
            elif r['k'].startswith('Float') or r['k'] in ('PointerExposeAddress', 'PointerExposeProvenance') or r['k'] == 'Transmute':
                self.emit(st, 'cast', v, a, b)
            return [(st, v)]
        if k == 'bin':
            return self.binop(st, fr, r)
        if k == 'un':
            v = self.operand(st, fr, r['a'])
            if r['op'] == 'Not':
                if self.is_bool(fr, r['a'], v):
                    return [(st, NOT(v))]
                return [(st, mk('bitnot', v))]
            if r['op'] == 'Neg':
                return [(st, mul(v, -1))]
            if r['op'] == 'PtrMetadata':
                return [(st, length(v))]
            return [(st, mk('un', r['op'], v))]
        if k == 'discr':
            loc, path = self.resolve(st, fr, r['p'])
            v = self.load(st, loc, path)
            if v.op == 'ptr':
                v = self.load(st, v.a[0], v.a[1])
            return [(st, mk('discrv', v, r['adt']))]
        if k == 'agg':
            ops = [self.operand(st, fr, x) for x in r['ops']]
            kk = r['k']
            if kk == 'adt':
                return [(st, self.agg(r['path'], r['variant'], ops))]
            if kk == 'tuple':
                return [(st, self.agg('tuple', '', ops) if ops else UNIT)]
            if kk == 'array':
                return [(st, mk('seq', tuple(('e', x) for x in ops)))]
            if kk == 'closure':
                key = ('vp!' if fr.body.model else '') + r['key']
                return [(st, AGG(CLOSURE, key, ops))]
            return [(st, mk('aggx', tuple(ops)))]
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            return [(st, mk('zeros', v, r['n']))]
        if k == 'tls':
            self.emit(st, 'call', 'thread_local', (), UNIT)
            return [(st, mk('static', r['d']))]
        self.unknown.append(('rvalue', k, self.repo_span()))
        return [(st, mk('unk', self.repo_span()))]

    def binop(self, st, fr, r):
        op = r['op']
        a = self.operand(st, fr, r['a'])
        b = self.operand(st, fr, r['b'])
        isb = self.is_bool(fr, r['a'], a)
        if op in ('BitAnd', 'BitOr', 'BitXor') and isb:
            out = []
            for s, x in self.fork(st, a):
                if op == 'BitAnd' and not x:
                    out.append((s, FALSE))
                elif op == 'BitOr' and x:
                    out.append((s, TRUE))
                else:
                    for s2, y in self.fork(s, b):
                        out.append((s2, BOOL(x != y if op == 'BitXor' else y)))
            return out
        if isb and op in ('Eq', 'Ne'):
            if b.op == 'bool':
                v = a if b.a[0] else NOT(a)
            elif a.op == 'bool':
                v = b if a.a[0] else NOT(b)
            else:
                out = []
                for s, x in self.fork(st, a):
                    for s2, y in self.fork(s, b):
                        out.append((s2, BOOL((x == y) == (op == 'Eq'))))
                return out
            return [(st, v if op == 'Eq' else NOT(v))]
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        v = None
        if base == 'Add':
            v = add(a, b)
        elif base == 'Sub':
            v = sub(a, b)
        elif base == 'Mul' and (a.op == 'int' or b.op == 'int'):
            v = mul(a, b.a[0]) if b.op == 'int' else mul(b, a.a[0])
        elif base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a.op in ('discrv',) or b.op in ('discrv',):
                v = mk('eq', *sorted((a, b), key=lambda t: t.id))
                if base == 'Ne':
                    v = NOT(v)
            elif a.op == 'char' and b.op == 'char':
                x, y = a.a[0], b.a[0]
                v = BOOL({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[base])
            else:
                d = sub(a, b)
                v = {'Eq': lambda: eq0(d), 'Ne': lambda: NOT(eq0(d)), 'Gt': lambda: gt0(d),
                     'Lt': lambda: gt0(mul(d, -1)), 'Ge': lambda: gt0(add(d, INT(1))),
                     'Le': lambda: gt0(add(mul(d, -1), INT(1)))}[base]()
        if v is None:
            if a.op == 'int' and b.op == 'int' and base in ('Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
                x, y = a.a[0], b.a[0]
                try:
                    v = INT({'Mul': lambda: x * y, 'Div': lambda: x // y, 'Rem': lambda: x % y, 'BitAnd': lambda: x & y,
                             'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[base]())
                except ZeroDivisionError:
                    pass
            if v is None:
                v = mk('arith', base, a, b)
        if op.endswith('WithOverflow'):
            return [(st, TUP(v, FALSE))]
        return [(st, v)]

    # ---- blocks ----------------------------------------------------------------------------
    def exec_block(self, st, fr, bb):
        """[(target, state)] where target is a block, ('ret', v) or ('retry', loop)."""
        self.stats['blocks'] += 1
        body = fr.body
        bl = body.blocks[bb]
        states = [st]
        for s in bl['s']:
            k = s['k']
            if k == '=':
                self.cur, self.cur_span = fr, s['sp']
                out = []
                for x in states:
                    for y, v in self.rvalue(x, fr, s['v']):
                        self.assign(y, fr, s['p'], v)
                        out.append(y)
                states = out
            elif k == 'dead':
                for x in states:
                    x.mem.pop((fr.id, s['l']), None)
            elif k == 'setdiscr':
                raise Unsupported('setdiscr')
        t = bl['t']
        self.cur, self.cur_span = fr, t.get('sp', '')
        k = t['k']
        if k == 'assert' and self.bounds:
            for x in states:
                self.asserted(x, fr, t)
        if k in ('goto', 'drop', 'assert'):
            return [(t['t'], x) for x in states]
        if k == 'return':
            return [(('ret', x.mem.get((fr.id, 0), UNIT)), x) for x in states]
        if k == 'unreachable':
            return []
        if k == 'switch':
            out = []
            for x in states:
                out += self.switch(x, fr, t)
            return out
        if k == 'call':
            out = []
            for x in states:
                self.cur, self.cur_span = fr, t.get('sp', '')
                out += self.call_term(x, fr, bb, t)
            return out
        return []

    def asserted(self, x, fr, t):
        """What a bounds or overflow check of the compiler looks at."""
        def val(o):
            m = re.match(r'(?:move|copy) _(\d+)$', o)
            if m:
                return x.mem.get((fr.id, int(m.group(1))), UNINIT)
            m = re.match(r'const (\d+)_\w+$', o)
            return INT(int(m.group(1))) if m else mk('opaque', o)
        m = re.match(r'BoundsCheck \{ len: (.*), index: (.*) \}$', t['msg'])
        if m:
            n = val(m.group(1))
            if n.op == 'len' and n.a[0].op == 'ptr':
                n = length(self.load(x, n.a[0].a[0], n.a[0].a[1]))
            self.emit(x, 'idx', n.a[0] if n.op == 'len' else None, val(m.group(2)), n)
            return
        m = re.match(r'Overflow\((\w+), (.*), (.*)\)$', t['msg'])
        z = re.match(r'(DivisionByZero|RemainderByZero)\((.*)\)$', t['msg'])
        if z:
            # the message names the number divided; the divisor is what was compared with zero
            self.emit(x, 'arith', z.group(1), val(z.group(2)), self.divisor(x, fr, t), None)
            return
        o = re.match(r'(?:move|copy) _(\d+)$', m.group(2)) if m else None
        c = re.match(r'const \d+_(\w+)$', m.group(2)) if m else None
        ty = fr.body.crate.types[fr.body.locals[int(o.group(1))]['ty']]['s'] if o else c.group(1) if c else None
        self.emit(x, 'arith', m.group(1) if m else t['msg'], val(m.group(2)) if m else None, val(m.group(3)) if m else None, ty)

    def divisor(self, x, fr, t):
        v = self.operand(x, fr, t['o'])
        if v.op == 'not' and v.a[0].op == 'gt0':
            v = v.a[0]
        return v.a[0] if v.op in ('eq0', 'gt0') else v if v.op in ('bool', 'int') else None

    def assign(self, st, fr, place, v):
        if len(place) == 1:
            st.mem[(fr.id, place[0])] = v
            self.note(v, fr.body.crate, fr.body.locals[place[0]]['ty'])
            return
        loc, path = self.resolve(st, fr, place)
        if not (loc[0] == fr.id and loc[1] == place[0]):
            self.emit(st, 'store', loc, path, v)
        self.store(st, loc, path, v)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t['o'])
        arms = t['arms']
        if v.op == 'discrv':
            e, adt = v.a
            ad = self.p.adts[adt]
            dn = {x['discr']: x['name'] for x in ad['variants']}
            targets = {}
            order = []
            seen = set()
            for c, tb in arms:
                n = dn.get(c)
                if n is None:
                    continue
                seen.add(n)
                if tb not in targets:
                    order.append(tb)
                targets.setdefault(tb, set()).add(n)
            rest = set(dn.values()) - seen
            if rest:
                if t['else'] not in targets:
                    order.append(t['else'])
                targets.setdefault(t['else'], set()).update(rest)
            ps = self.possible(st, e, adt)
            live = [(tb, targets[tb] & ps) for tb in order if targets[tb] & ps]
            if len(live) == 1:
                return [(live[0][0], st)]
            return [(tb, self.restrict(st, e, adt, ns)) for tb, ns in live]
        ty = fr.body.crate.types[t['ty']]['s'] if 'ty' in t else ''
        if ty == 'bool' or v.op in BOOLOPS:
            out = []
            for s, b in self.fork(st, v):
                tb = t['else']
                for c, x in arms:
                    if c == (1 if b else 0):
                        tb = x
                out.append((tb, s))
            return out
        if v.op in ('int', 'char'):
            for c, x in arms:
                if c == v.a[0]:
                    return [(x, st)]
            return [(t['else'], st)]
        out = []
        cur = [st]
        for c, x in arms:
            nxt = []
            for s in cur:
                for s2, b in self.fork(s, eq0(sub(v, INT(c)))):
                    if b:
                        out.append((x, s2))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(t['else'], s) for s in cur]

    # ---- joins -----------------------------------------------------------------------------
    def project(self, st, fr, bb):
        keep = set()
        f, lv = fr, fr.body.live(bb) if bb is not None else set()
        stack = []
        while f is not None:
            for l in lv:
                stack.append((f.id, l))
            p = f.parent
            if p is not None:
                if f.bb >= 0:
                    t = p.body.blocks[f.bb]['t']
                    lv = set(p.body.live(t['t'])) if 't' in t else set()
                    d = t['d']
                    if len(d) > 1:
                        lv.add(d[0])
                else:
                    lv = set(l for (fi, l) in st.mem if fi == p.id)
            f = p
        for k in st.mem:
            if k[0] in ('root', 'slot'):
                stack.append(k)
        mem = st.mem
        while stack:
            k = stack.pop()
            if k in keep or k not in mem:
                continue
            keep.add(k)
            for q in ptrs(mem[k]):
                if q not in keep:
                    stack.append(q)
        if len(keep) != len(mem):
            st.mem = {k: v for k, v in mem.items() if k in keep}
        return st

    def join(self, fr, bb, states):
        for s in states:
            self.project(s, fr, bb)
        if len(states) == 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(frozenset(s.mem.items()), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            out += self.merge_some(fr, g)
        self.stats['maxstates'] = max(self.stats['maxstates'], len(out))
        if len(out) > self.CAP:
            raise Unsupported('too many states (%d) at %s bb%d' % (len(out), fr.body.key, bb))
        return out

    def merge_some(self, fr, g):
        """States with the same memory: merged where their facts have a short exact disjunction, else into one."""
        if len(g) == 1:
            return g
        if len(g) > 12:
            return [self.merge(fr, g)]
        fs = [(frozenset(s.facts.items()), s) for s in g]
        ms = merge_facts([f for f, _ in fs], MERGE)
        if len(ms) == 1:
            return [self.merge(fr, g)]
        out = []
        left = list(fs)
        for m in ms:
            mine = [s for f, s in left if covers(m, f)]
            left = [(f, s) for f, s in left if not covers(m, f)]
            if not mine:
                continue
            out.append(mine[0] if len(mine) == 1 else self.merge(fr, mine))
        if left:
            return [self.merge(fr, g)]
        return out

    def merge(self, fr, g):
        facts = dict(g[0].facts)
        for s in g[1:]:
            for k in list(facts):
                v2 = s.facts.get(k)
                v1 = facts[k]
                if v2 is None or (v1 != v2 and not isinstance(v1, frozenset)):
                    del facts[k]
                elif v1 != v2:
                    facts[k] = v1 | v2
        n = self.newnode('join', (), facts=facts)
        for s in g:
            if s.node is not None:
                self.edge(s.node, n)
        ver = {}
        for s in g:
            for c, v in s.ver.items():
                if c not in ver:
                    ver[c] = v
                elif ver[c] != v:
                    ver[c] = ('j', n.id)
        for c in ver:
            for s in g:
                if c not in s.ver and ver[c] != 0:
                    ver[c] = ('j', n.id)
        return State(g[0].mem, facts, ver, n)

    # ---- regions and loops -----------------------------------------------------------------
    def exec_region(self, fr, region, entry, states, loop):
        """Runs states from entry inside region; returns [(target, state)] leaving it.
        target: block outside the region, ('ret', v), ('back',), ('retry', L)."""
        body = fr.body
        pend = {entry: list(states)}
        exits = []
        order = [b for b in body.rpo if b in region]
        for bb in order:
            sts = pend.pop(bb, None)
            if not sts:
                continue
            if not (bb == entry and loop is not None):
                sts = self.join(fr, bb, sts)
            if bb in body.loops and bb != entry or (bb in body.loops and loop is None):
                outs = self.exec_loop(fr, bb, sts)
            else:
                outs = []
                for s in sts:
                    outs += self.exec_block(s if loop is None and bb != entry else s.copy(), fr, bb)
            for tb, s in outs:
                if isinstance(tb, tuple):
                    if tb[0] == 'retry' and loop is not None and tb[1] == loop:
                        exits.append((('back',), s))
                    else:
                        exits.append((tb, s))
                elif tb == entry and loop is not None:
                    exits.append((('back',), s))
                elif tb in region:
                    pend.setdefault(tb, []).append(s)
                else:
                    exits.append((tb, s))
        return exits

    def exec_loop(self, fr, header, states):
        out = []
        for i, s in enumerate(states):
            out += self.loop_fix(fr, header, s, i)
        return out

    def loop_fix(self, fr, header, S0, ordinal, phase=0):
        body = fr.body
        L = ('L', fr.id, header, ordinal)
        # sequential phases of one loop (chained iterators) get their own ids
        if phase:
            L = L + (phase,)
        region = body.loops[header]
        self.project(S0, fr, header)
        # stale symbols of an earlier activation of this loop
        S0 = self.drop_stale(S0, L)
        mods = self.mods.setdefault(L, {})
        npass = 0
        self.stats['loops'] += 1
        while True:
            npass += 1
            if npass > 60:
                raise Unsupported('loop does not stabilise: %s bb%d' % (body.key, header))
            self.loopstack.append(L)
            base = len(self.nodes)
            try:
                res = self.loop_pass(fr, header, region, S0, L, mods)
            finally:
                self.loopstack.pop()
            if res is None:
                self.rollback(base)
                continue
            exits, headers, backs, leaves = res
            break
        # link the entry
        self.edge(S0.node, headers[0][1].node)
        outs = self.finish_loop(fr, L, S0, exits, headers, backs, leaves)
        nxt = [s for tb, s in outs if tb == ('phase', L)]
        if not nxt:
            return outs
        outs = [(tb, s) for tb, s in outs if tb != ('phase', L)]
        if phase > 6:
            raise Unsupported('too many loop phases')
        for s in self.join(fr, header, nxt):
            outs += self.loop_fix(fr, header, s, ordinal, phase + 1)
        return outs

    def mentions(self, t, L):
        for x in walk(t):
            if x.op in ('iv', 'lv', 'seqlv') and x.a[0] == L:
                return True
        return False

    def syms(self, t):
        r = self._syms.get(t) if hasattr(self, '_syms') else None
        if r is None:
            if not hasattr(self, '_syms'):
                self._syms = {}
            s = set()
            if t.op in ('iv', 'lv', 'seqlv'):
                s.add(t.a[0])
            for c in children(t):
                s |= self.syms(c)
            r = self._syms[t] = frozenset(s)
        return r

    def drop_stale(self, S0, L):
        facts = {k: v for k, v in S0.facts.items() if L not in self.syms(k)}
        if len(facts) != len(S0.facts):
            S0 = State(S0.mem, facts, S0.ver, S0.node)
        stale = {k: v for k, v in S0.mem.items() if L in self.syms(v)}
        if stale:
            S0 = State(dict(S0.mem), S0.facts, S0.ver, S0.node)
            for k, v in stale.items():
                S0.mem[k] = self.rename(v, L)
        return S0

    def rename(self, v, L):
        m = {}
        for x in walk(v):
            if x.op in ('iv', 'lv', 'seqlv') and x.a[0] == L:
                m[x] = mk('old', x.op, mk('loopid', L), *(y for y in x.a[1:]))
        return subst(v, m)

    def get_leaf(self, v, path):
        for (i, key) in path:
            if v.op != 'agg' or (v.a[0], v.a[1]) != key or i >= len(v.a[2]):
                return None
            v = v.a[2][i]
        return v

    def set_leaf(self, v, path, x):
        if not path:
            return x
        i, key = path[0]
        fs = list(v.a[2])
        fs[i] = self.set_leaf(fs[i], path[1:], x)
        return AGG(v.a[0], v.a[1], fs)

    def diff(self, a, b, path, out):
        if a is b:
            return
        if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and a.a[2]:
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                self.diff(x, y, path + ((i, (a.a[0], a.a[1])),), out)
            return
        out.append((path, a, b))

    def isseq(self, v):
        return v.op in ('seq', 'seqrep', 'seqlv') or (v.op in ('str', 'cat'))

    def symbol(self, L, leaf, kind, init):
        if kind == 'iv':
            return add(init, mk('iv', L))
        if kind == 'dv':
            return sub(init, mk('iv', L))
        if kind in ('seq', 'pseq'):
            return mk('seqlv', L, mk('leaf', *leaf_key(leaf)), init)
        return mk('lv', L, mk('leaf', *leaf_key(leaf)))

    def loop_pass(self, fr, header, region, S0, L, mods):
        """One pass; returns None when mods changed."""
        leaves = {}    # leaf -> (kind, init, symbol) of the entry header
        mem = dict(S0.mem)
        for (loc, path), kind in mods.items():
            if loc == 'ver':
                continue
            if loc not in mem:
                continue
            init = self.get_leaf(mem[loc], path)
            if init is None or kind == 'split':
                continue
            sym = self.symbol(L, (loc, path), kind, init)
            if init in self.typ and sym not in self.typ:
                self.typ[sym] = self.typ[init]
            leaves[(loc, path)] = (kind, init, sym)
            mem[loc] = self.set_leaf(mem[loc], path, sym)
        ver = dict(S0.ver)
        for (loc, path), kind in mods.items():
            if loc == 'ver':
                ver[path] = ('L', L)
        H0 = State(mem, S0.facts, ver, None)
        self.cur, self.cur_span = fr, fr.body.blocks[header]['t'].get('sp', '')
        H0.node = self.newnode('hdr', (L, 0, tuple((sym, kind, init) for kind, init, sym in leaves.values())), H0)
        headers = [(self.hkey(H0, mods, L), H0)]
        work = [H0]
        exits = []
        backs = []
        nh = 0
        while work:
            H = work.pop(0)
            nh += 1
            if nh > 40:
                raise Unsupported('too many header states: %s bb%d' % (fr.body.key, header))
            for tb, s in self.exec_region(fr, region, header, [H], L):
                if tb != ('back',):
                    exits.append((tb, s, H))
                    continue
                self.project(s, fr, header)
                todo = [s]
                while todo:
                    s = todo.pop()
                    r = self.match_back(fr, header, s, H, headers, mods, L, leaves, backs, work)
                    if r is None:
                        return None
                    todo += r
        return exits, headers, backs, leaves

    def hkey(self, H, mods, L):
        k = []
        for leaf in sorted((l for l, kind in mods.items() if kind == 'split'), key=str):
            loc, path = leaf
            v = self.get_leaf(H.mem.get(loc, UNINIT), path)
            k.append((leaf, self.shape(v)))
        return tuple(k)

    def shape(self, v):
        if v is None:
            return None
        if v.op == 'bool':
            return v
        if v.op == 'agg':
            return (v.a[0], v.a[1])
        return '?'

    def match_back(self, fr, header, s, H, headers, mods, L, leaves, backs, work):
        """Compares a back-edge state with the header; None = mods changed; [] = ok; list = split further."""
        diffs = []
        for loc in set(H.mem) | set(s.mem):
            a, b = H.mem.get(loc), s.mem.get(loc)
            if a is None or b is None:
                continue
            if a is b:
                continue
            d = []
            self.diff(a, b, (), d)
            diffs += [((loc, p), x, y) for p, x, y in d]
        changed = False
        delta = {}
        for leaf, x, y in diffs:
            kind = mods.get(leaf)
            if kind is None:
                kind = self.first_kind(x, y)
                mods[leaf] = kind
                changed = True
            elif kind in ('iv', 'dv'):
                if sub(y, x) is not INT(1 if kind == 'iv' else -1):
                    mods[leaf] = 'lv'
                    changed = True
            elif kind in ('seq', 'pseq'):
                dl = self.seq_delta(x, y) if kind == 'seq' else self.seq_front(x, y)
                if dl is None:
                    mods[leaf] = 'pseq' if kind == 'seq' and self.seq_front(x, y) is not None else 'lv'
                    changed = True
                else:
                    delta[leaf] = dl
            elif kind == 'split':
                if y.op not in ('bool', 'agg'):
                    if self.boolish(y):
                        out = []
                        for s2, bv in self.fork(s, y):
                            s2 = s2.copy()
                            s2.mem[leaf[0]] = self.set_leaf(s2.mem[leaf[0]], leaf[1], BOOL(bv))
                            out.append(s2)
                        return out
                    mods[leaf] = 'lv'
                    changed = True
            elif kind == 'lv':
                pass
        # leaves that kept their value but mention symbols of inner (finished) loops
        for leaf, (kind, init, sym) in leaves.items():
            if kind in ('iv', 'dv') and not any(l == leaf for l, _, _ in diffs):
                mods[leaf] = 'lv'
                changed = True
        act = set(self.loopstack)
        for leaf, x, y in diffs:
            if mods.get(leaf) == 'split' and y.op == 'agg':
                inner = [q for q in self.syms(y) if q not in act and q != L]
                if any(q[1:2] == (fr.id,) or True for q in inner) and inner:
                    base = self.syms(headers[0][1].mem.get(leaf[0], UNINIT))
                    if any(q not in base for q in inner):
                        mods[leaf] = 'lv'
                        changed = True
        for c in set(H.ver) | set(s.ver):
            if H.ver.get(c, 0) != s.ver.get(c, 0) and ('ver', c) not in mods:
                mods[('ver', c)] = 'ver'
                changed = True
        if changed:
            return None
        k = self.hkey(s, mods, L)
        tgt = None
        for k2, h2 in headers:
            if k2 == k:
                tgt = h2
        if tgt is None:
            # parts of a split leaf that depend on this iteration differ from one iteration to the next
            for (loc, path), kind in list(mods.items()):
                if loc == 'ver' or kind != 'split' or loc not in s.mem:
                    continue
                v = self.get_leaf(s.mem[loc], path)
                if v is None or v.op != 'agg':
                    continue
                for q, x in self.agg_leaves(v, tuple(path)):
                    if (loc, q) not in mods and self.mentions(x, L):
                        mods[(loc, q)] = 'lv'
                        changed = True
            if changed:
                return None
            mem = dict(s.mem)
            for leaf, (kind, init, sym) in leaves.items():
                loc, path = leaf
                if loc in mem and self.get_leaf(mem[loc], path) is not None:
                    mem[loc] = self.set_leaf(mem[loc], path, sym)
            # other generalised leaves that exist only under this key
            for (loc, path), kind in mods.items():
                if loc == 'ver' or kind in ('split',) or (loc, path) in leaves or loc not in mem:
                    continue
                cur = self.get_leaf(mem[loc], path)
                if cur is None:
                    continue
                mem[loc] = self.set_leaf(mem[loc], path, mk('lv', L, mk('leaf', *leaf_key((loc, path)))))
            ver = dict(s.ver)
            for (loc, path), kind in mods.items():
                if loc == 'ver':
                    ver[path] = ('L', L)
            tgt = State(mem, headers[0][1].facts, ver, None)
            self.cur, self.cur_span = fr, fr.body.blocks[header]['t'].get('sp', '')
            tgt.node = self.newnode('hdr', (L, len(headers)), tgt)
            headers.append((k, tgt))
            work.append(tgt)
        else:
            # same key: the non-generalised parts must agree with the target header
            for loc in set(tgt.mem) & set(s.mem):
                d = []
                self.diff(tgt.mem[loc], s.mem[loc], (), d)
                for p, x, y in d:
                    kind = mods.get((loc, p))
                    if kind is None:
                        mods[(loc, p)] = self.first_kind(x, y)
                        return None
                    if kind == 'split' and self.shape(x) != self.shape(y):
                        mods[(loc, p)] = 'lv'
                        return None
                    if kind == 'split' and x.op == 'agg':
                        mods[(loc, p)] = 'lv'
                        return None
        self.edge(s.node, tgt.node)
        backs.append((s, H, tgt, delta))
        return []

    def agg_leaves(self, v, path):
        out = []
        for i, x in enumerate(v.a[2]):
            q = path + ((i, (v.a[0], v.a[1])),)
            if x.op == 'agg' and x.a[0] != CLOSURE:
                out += self.agg_leaves(x, q)
            else:
                out.append((q, x))
        return out

    def boolish(self, v):
        if v.op in BOOLOPS:
            return True
        t = self.typeof(v)
        return t is not None and t['s'] == 'bool'

    def first_kind(self, x, y):
        if x.op == 'bool' and (y.op == 'bool' or self.boolish(y)):
            return 'split'
        if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and x.a[1] != y.a[1]:
            if x.a[2] and contains(y, x):
                return 'lv'        # wrapped up once more in every iteration
            return 'split'
        if self.isseq(x) and self.seq_delta(x, y) is not None:
            return 'seq'
        if sub(y, x) is INT(1):
            return 'iv'
        if x.op not in ('agg', 'seq', 'bool', 'new', 'str') and sub(y, x) is INT(-1):
            return 'dv'
        if x.op not in ('agg', 'seq', 'bool', 'new', 'str') and self.seq_delta(x, y) is not None:
            return 'seq'
        if self.isseq(x) and self.seq_front(x, y) is not None:
            return 'pseq'
        return 'lv'

    def seq_front(self, x, y):
        """y = delta ++ x -> delta parts."""
        if y is x:
            return ()
        if x.op in ('str', 'cat') or y.op != 'seq':
            return None
        px, py = parts(x), parts(y)
        k = len(py) - len(px)
        if k >= 0 and py[k:] == px:
            return py[:k]
        return None

    def seq_delta(self, x, y):
        """y = x ++ delta -> delta parts."""
        if y.op in ('cat',) and (x.op in ('seqlv', 'cat', 'str')):
            px = x.a[0] if x.op == 'cat' else (x,)
            py = y.a[0]
            if x.op == 'str' and py[0].op == 'str' and py[0].a[0].startswith(x.a[0]):
                rest = py[0].a[0][len(x.a[0]):]
                return tuple(('c', q) for q in ((STR(rest),) if rest else ()) + py[1:])
            if py[:len(px)] == px:
                return tuple(('c', q) for q in py[len(px):])
            return None
        if y is x:
            return ()
        px = parts(x)
        py = parts(y)
        if px != () and y.op != 'seq':
            return None
        if py[:len(px)] == px and len(py) >= len(px):
            return py[len(px):]
        return None

    def finish_loop(self, fr, L, S0, exits, headers, backs, leaves):
        base_facts = headers[0][1].facts
        iv = mk('iv', L)
        # trip count: exits whose facts contain !(n - iv > 0)
        reps = {}
        front = set()
        for leaf, (kind, init, sym) in leaves.items():
            if kind not in ('seq', 'pseq'):
                continue
            alts = []
            for s, H, tgt, delta in backs:
                dl = delta.get(leaf)
                if dl is None:
                    cur = self.get_leaf(s.mem.get(leaf[0], UNINIT), leaf[1])
                    dl = () if cur is sym else None
                    if dl is None:
                        dl = (('s', mk('unk', 'delta')),)
                fd = frozenset((k, v) for k, v in s.facts.items() if base_facts.get(k) != v and self.relevant(k, L))
                if (fd, dl) not in alts:
                    alts.append((fd, dl))
            if kind == 'pseq':
                front.add(sym)
                alts = [(fd, tuple((p if p[0] == 'e' else ('s', rev(p[1]))) for p in reversed(dl))) for fd, dl in alts]
            reps[leaf] = (sym, init, alts)
        for leaf, (sym, init, alts) in reps.items():
            reps[leaf] = (sym, init, self.merge_alts(alts))
        self.loopinfo[L] = {'frame': fr, 'header': headers[0][1].node, 'leaves': leaves, 'backs': backs, 'exits': exits,
                            'headers': headers}
        for _, h in headers:
            self.hdrinfo[h.node.id] = self.loopinfo[L]
        out = []
        trips = set()
        for tb, s, H in exits:
            n = self.trip(s, base_facts, iv, L)
            if n is not None:
                trips.add(n)
        self.loopinfo[L]['trips'] = trips
        for tb, s, H in exits:
            n = self.trip(s, base_facts, iv, L)
            m = {}
            if n is not None:
                m[iv] = n
            for leaf, (sym, init, alts) in reps.items():
                al = tuple((fd, tuple(dl)) for fd, dl in alts)
                w = 'full' if n is not None else 'part'
                if any(q[0] == 'c' for _, dl in al for q in dl) or init.op in ('str', 'cat'):
                    m[sym] = mk('seqrep', L, init, al, n, w)
                elif sym in front:
                    m[sym] = SEQ((('s', rev(mk('seqrep', L, EMPTY, al, n, w))),) + parts(init))
                elif n is INT(1) and len(al) == 1 and not any(y.op in ('lv', 'seqlv') and y.a[0] == L for _, x in al[0][1] for y in walk(x)):
                    # a loop of one turn
                    m[sym] = SEQ(parts(init) + tuple((q[0], subst(q[1], {iv: INT(0)})) for q in al[0][1]))
                else:
                    m[sym] = SEQ(parts(init) + (('s', mk('seqrep', L, EMPTY, al, n, w)),))
            if m:
                memo = {}
                s.mem = {k: self.subst_mem(v, m, memo, L) for k, v in s.mem.items()}
                if isinstance(tb, tuple) and tb[0] == 'ret':
                    tb = ('ret', self.subst_mem(tb[1], m, memo, L))
                if n is not None:
                    # facts about the final value of the counter
                    facts = {}
                    for k, v in s.facts.items():
                        if L in self.syms(k):
                            k2 = subst(k, {iv: n}) if iv in set(walk(k)) else k
                            if k2.op == 'bool' or k2.op == 'not':
                                facts[k] = v
                                continue
                            facts[k2] = v
                        facts[k] = v
                    s.facts = facts
            if n is not None:
                self.emit(s, 'exit', L, n)
            else:
                self.emit(s, 'exit', L, None)
            out.append((tb, s))
        return out

    def subst_mem(self, v, m, memo, L):
        if L not in self.syms(v):
            return v
        # iv inside seqrep alternatives of this loop must stay symbolic
        return subst(v, m, memo)

    def relevant(self, k, L):
        return True

    def merge_alts(self, alts):
        """Alternatives with equal parts: joined where they differ in one complementary fact only."""
        groups = {}
        order = []
        for fd, dl in alts:
            if dl not in groups:
                groups[dl] = []
                order.append(dl)
            groups[dl].append(frozenset(fd))
        out = []
        for dl in order:
            out += [(f, dl) for f in merge_facts(groups[dl])]
        return out

    def trip(self, s, base, iv, L):
        for k, v in s.facts.items():
            if k.op == 'eq0' and v is True and base.get(k) is None:
                c, d = lin(k.a[0])
                if iv in d and abs(d[iv]) == 1:
                    t = k.a[0]
                    n = add(t, iv) if d[iv] == -1 else sub(iv, t)
                    if L not in self.syms(n):
                        return n
            if k.op == 'gt0' and base.get(k) is None:
                c, d = lin(k.a[0])
                if iv in d and abs(d[iv]) == 1:
                    # normalise to n - iv > 0 being false
                    t = k.a[0]
                    if d[iv] == -1 and v is False:
                        n = add(t, iv)
                    elif d[iv] == 1 and v is True:
                        # iv + r > 0 true  <=>  (1 - iv - r > 0) false
                        n = add(sub(INT(1), t), iv)
                    else:
                        continue
                    if L not in self.syms(n):
                        return n
        return None

    # ---- bodies and calls --------------------------------------------------------------------
    def frame(self, parent, bb, body):
        k = (parent.id if parent else -1, bb, body.key)
        f = self.frame_ids.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.frames)
            f.parent = parent
            f.bb = bb
            f.body = body
            f.depth = parent.depth + 1 if parent else 0
            f.keys = (parent.keys if parent else ()) + (body.key,)
            self.frames.append(f)
            self.frame_ids[k] = f
        return f

    def exec_body(self, st, parent, bb, body, args):
        """[('ret', state, value) | ('retry', state, loop)]"""
        fr = self.frame(parent, bb, body)
        if fr.depth > 60:
            raise Unsupported('inlining too deep at ' + body.key)
        self.stats['funcs'].add(body.key)
        fr.args = tuple(self.snapshot(st, a) for a in args)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
            self.note(a, body.crate, body.locals[i + 1]['ty'])
        out = []
        for tb, s in self.exec_region(fr, set(body.rpo), 0, [st], None):
            s.mem = {k: v for k, v in s.mem.items() if k[0] != fr.id}
            if isinstance(tb, tuple):
                out.append((tb[0], s, tb[1] if len(tb) > 1 else None))
        # join returns that agree
        if len([1 for o in out if o[0] == 'ret']) > 1:
            groups = {}
            rest = []
            for o in out:
                if o[0] != 'ret':
                    rest.append(o)
                    continue
                if parent is not None and bb >= 0:
                    self.project(o[1], parent, None) if False else None
                groups.setdefault((o[2], frozenset(o[1].mem.items())), []).append(o[1])
            out = rest
            for (v, _), g in groups.items():
                for s in self.merge_some(fr, g):
                    out.append(('ret', s, v))
        return out

    def call_term(self, st, fr, bb, t):
        self.stats['calls'] += 1
        args = [self.operand(st, fr, a) for a in t['args']]
        f = self.operand(st, fr, t['f'])
        outs = self.call(st, fr, bb, t, f, args)
        res = []
        for o in outs:
            if o[0] in ('retry', 'phase'):
                res.append(((o[0], o[2]), o[1]))
            elif 't' in t:
                s = o[1]
                self.cur, self.cur_span = fr, t.get('sp', '')
                self.assign(s, fr, t['d'], o[2])
                self.note(o[2], fr.body.crate, t['dty'])
                res.append((t['t'], s))
        return res

    def call(self, st, fr, bb, t, f, args):
        """t: call terminator (for types) or None."""
        if f.op == 'ptr':
            f = self.load(st, f.a[0], f.a[1])
        if f.op == 'agg' and f.a[0] == CLOSURE:
            return self.call_closure(st, fr, bb, f, None, args)
        if f.op != 'fn':
            snap = tuple(self.snapshot(st, a) for a in args)
            r = mk('icallv', f, snap)
            self.emit(st, 'icall', f, snap, r, tuple(args))
            for i, a in enumerate(args):
                if a.op == 'ptr':
                    old = self.load(st, a.a[0], a.a[1])
                    new = mk('after', r, i)
                    self.store(st, a.a[0], a.a[1], new)
                    if old in self.typ:
                        self.typ[new] = self.typ[old]
            return [('ret', st, r)]
        ref = f.a[2]
        j, crate = ref.j, ref.crate
        if 'ctor' in j:
            return [('ret', st, self.agg(j['ctor'], j['variant'], args))]
        path = mir.strip_generics(j['path'])
        res = mir.strip_generics(j['resolved']) if 'resolved' in j else None
        c = Call(self, st, fr, bb, t, j, crate, path, res, args)
        return self.dispatch(c)

    def call_closure(self, st, fr, bb, clo, selfv, args):
        body = self.p.bodies[clo.a[1]]
        return self.exec_body(st, fr, bb, body, [selfv if selfv is not None else clo] + list(args))

    def dispatch(self, c):
        # intrinsics of the models
        nm = c.path.split('::')[-1]
        if nm.startswith('__vp_'):
            r = self.prims.intrinsic(self, c, nm)
            if r is not None:
                return r
        j = c.j
        key = j.get('resolved_key') or (j.get('key') if not j.get('trait') or 'resolved_key' in j else None)
        pre = 'vp!' if c.crate.model else ''
        body = self.p.bodies.get(pre + key) if key else None
        if body is not None and body.key in self.p.derived:
            tr = j.get('trait', '')
            if tr != 'core::default::Default':
                body = None
        if body is not None and nm in ('call', 'call_mut', 'call_once') and '::ops::function::' in (j.get('trait') or ''):
            v = c.val(0)
            if v.op == 'agg' and v.a[0] == CLOSURE and v.a[1] in self.p.bodies:
                body = None          # the primitive passes the arguments one by one
            elif len(c.args) == 2 and c.args[1].op == 'agg' and c.args[1].a[0] == 'tuple':
                c.args = [c.args[0]] + list(c.args[1].a[2])
        if body is not None and self.is_opaque(body.key):
            return self.opaque_local(c, body)
        if body is not None and body.key in self.parsers:
            return self.prims.do_parse(self, c, c.val(0), self.parsers[body.key])
        if body is not None:
            nrec = c.fr.keys.count(body.key)
            if nrec and not (body.model and nrec < 8):
                return self.recursive(c, body)
            return self.exec_body(c.st, c.fr, c.bb, body, c.args)
        # trait dispatch on the receiver value
        if j.get('trait') and c.args:
            v = c.val(0)
            m = c.path.split('::')[-1]
            if v.op == 'agg':
                k = self.p.impls.get((j['trait'], v.a[0], m))
                if k is not None and k not in self.p.derived:
                    b = self.p.bodies[k]
                    nrec = c.fr.keys.count(b.key)
                    if nrec and not (nrec < 8):
                        return self.recursive(c, b)
                    return self.exec_body(c.st, c.fr, c.bb, b, c.args)
        for p in (c.res, c.path):
            if p is None:
                continue
            h = self.prims.lookup(p)
            if h is not None:
                r = h(self, c)
                if r is not None:
                    return r
            mk_ = self.p.models.get(p)
            if mk_ is not None:
                return self.exec_body(c.st, c.fr, c.bb, self.p.bodies[mk_], c.args)
        # trait methods with a default body in the crate
        key = j.get('key')
        body = self.p.bodies.get(pre + key) if key else None
        if body is not None and body.key not in self.p.derived:
            if c.fr.keys.count(body.key):
                return self.recursive(c, body)
            return self.exec_body(c.st, c.fr, c.bb, body, c.args)
        return self.opaque_call(c)

    def is_opaque(self, key):
        return key in self.opaque

    def snapshot(self, st, v, d=0):
        """Value with pointers replaced by what they point to."""
        if not ptrs(v) or d > 4:
            return v
        if v.op == 'ptr':
            return self.snapshot(st, self.load(st, v.a[0], v.a[1]), d + 1)
        m = {}
        for x in walk(v):
            if x.op == 'ptr':
                m[x] = self.snapshot(st, self.load(st, x.a[0], x.a[1]), d + 1)
        return subst(v, m)

    def opaque_local(self, c, body):
        args = tuple(self.snapshot(c.st, a) for a in c.args)
        r = mk('res', body.key, args)
        if self.atomic:
            n = len([1 for k in self.atoms if k.a[0] == body.key])
            old = [k for k, v in self.atoms.items() if v == (body.key, args)]
            r = old[0] if old else mk('sym', body.key, n)
            self.atoms[r] = (body.key, args)
        self.emit(c.st, 'call', body.key, args, r, tuple(c.args))
        for i, a in enumerate(c.args):
            if a.op == 'ptr':
                self.store(c.st, a.a[0], a.a[1], mk('out', body.key, args, i))
        return [('ret', c.st, r)]

    def recursive(self, c, body):
        args = tuple(self.snapshot(c.st, a) for a in c.args)
        r = mk('rec', body.key, args)
        n = self.emit(c.st, 'rec', body.key, args, r, tuple(c.args))
        f = c.fr
        while f is not None and f.body.key != body.key:
            f = f.parent
        self.recargs[n.id] = f.args if f is not None else None
        for i, a in enumerate(c.args):
            if a.op == 'ptr':
                old = self.load(c.st, a.a[0], a.a[1])
                if self.isseq(old) or (self.typeof(old) or {}).get('path') == 'alloc::vec::Vec':
                    n = cat(old, mk('recout', body.key, args, i))
                else:
                    n = mk('recout', body.key, args, i)
                self.store(c.st, a.a[0], a.a[1], n)
        return [('ret', c.st, r)]

    def opaque_call(self, c, note=True):
        args = tuple(self.snapshot(c.st, a) for a in c.args)
        path = c.res or c.path
        tys = tuple(c.crate.types[a]['s'] for a in c.j.get('args', ()))
        r = mk('opq', path, tys, args)
        n = self.emit(c.st, 'call', path, args, r, tuple(c.args))
        if c.t is not None and 't' not in c.t:
            return []
        if note:
            self.opaque_calls[path] = self.opaque_calls.get(path, 0) + 1
        for i, a in enumerate(c.args):
            if a.op == 'ptr':
                self.store(c.st, a.a[0], a.a[1], mk('upd', path, args, i))
        return [('ret', c.st, r)]

    # ---- roots -----------------------------------------------------------------------------
    def run(self, body, args=None):
        st = State({}, {}, {}, None)
        st.node = self.newnode('entry', (body.key,), st)
        self.params = []
        if args is None:
            args = []
            for i in range(1, body.argc + 1):
                l = body.locals[i]
                nm = l.get('name') or 'arg%d' % i
                v = mk('param', i - 1, nm)
                self.params.append(v)
                t = body.crate.types[l['ty']]
                self.note(v, body.crate, l['ty'])
                if t['k'] == 'ref' and t.get('mut'):
                    loc = ('root', i)
                    st.mem[loc] = v
                    v = mk('ptr', loc, ())
                args.append(v)
        self.entry = st.node
        self.rets = []
        for k, s, v in self.exec_body(st, None, -1, body, args):
            if k == 'ret':
                self.cur_span = body.span
                self.emit(s, 'ret', self.snapshot(s, v), tuple(sorted((k2[1], self.snapshot(s, x)) for k2, x in s.mem.items() if k2[0] == 'root')))
                self.rets.append(s.node)
        self.reach()
        return self

    def reach(self):
        self.reach1()
        self.prune_empty()

    def prune_empty(self):
        """Decisions that a set nothing was put into yet is not empty are impossible."""
        new = {n.id: n.data[0] for n in self.live_nodes if n.kind == 'new'}
        cut = []
        for n in self.live_nodes:
            if n.kind == 'cond' and n.data[0].op in ('gt0', 'eq0'):
                k, d = lin(n.data[0].a[0])
                if k == 0 and len(d) == 1:
                    x, c = list(d.items())[0]
                    if x.op == 'len' and x.a[0].op == 'setseq' and c > 0 and n.data[1] is (n.data[0].op == 'gt0') and new.get(x.a[0].a[1]) is x.a[0].a[0]:
                        cut.append(n)
        if cut:
            for n in cut:
                for p in n.pred:
                    p.succ = [m for m in p.succ if m is not n]
            self.reach1()

    def reach1(self):
        seen = set()
        st = [self.entry]
        while st:
            n = st.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            st.extend(n.succ)
        self.live_nodes = [n for n in self.nodes if n.id in seen]
        ids = seen
        for n in self.live_nodes:
            n.pred = [p for p in n.pred if p.id in ids]


def HAS(g):
    """Presence atom of a 'get' term."""
    return mk('has', *g.a)


def setelem(v, i, n):
    if v.op == 'seq' and i.op == 'int':
        ps = list(v.a[0])
        if all(p[0] == 'e' for p in ps[:i.a[0] + 1]) and i.a[0] < len(ps):
            ps[i.a[0]] = ('e', n)
            return mk('seq', tuple(ps))
    if v.op == 'setelem' and v.a[1] is i:
        v = v.a[0]
    return mk('setelem', v, i, n)


def leaf_key(leaf):
    loc, path = leaf
    return (loc, tuple(p[0] for p in path))


class FnRef(object):
    """Callee description attached to a 'fn' term (identity by content)."""
    cache = {}

    def __new__(cls, j, crate):
        k = (crate.name, repr(j))
        r = cls.cache.get(k)
        if r is None:
            r = object.__new__(cls)
            r.j = j
            r.crate = crate
            cls.cache[k] = r
        return r


class Call(object):
    """A call being interpreted."""

    def __init__(self, I, st, fr, bb, t, j, crate, path, res, args):
        self.I, self.st, self.fr, self.bb, self.t = I, st, fr, bb, t
        self.j, self.crate, self.path, self.res, self.args = j, crate, path, res, args

    def val(self, i):
        a = self.args[i]
        n = 0
        while a.op == 'ptr' and n < 5:
            a = self.I.load(self.st, a.a[0], a.a[1])
            n += 1
        return a

    def ty(self, i):
        """i-th generic argument type of the callee."""
        a = self.j.get('args', ())
        return self.crate.types[a[i]] if i < len(a) else None

    def dty(self):
        return self.fr.body.crate.types[self.t['dty']] if self.t is not None and 'dty' in self.t else None

    def site(self):
        return (self.fr.id, self.bb)

    def ret(self, v):
        return [('ret', self.st, v)]
