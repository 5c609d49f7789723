"""Program representation: dumped crates, control-flow, loops and liveness."""
import re


def strip_generics(p):
    """'alloc::vec::Vec::<T, A>::push' -> 'alloc::vec::Vec::push'; '<T as Tr>::m' kept as is."""
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<' and d == 0 and out[-2:] == [':', ':']:
            out = out[:-2]
            d = 1
        elif d and c == '<':
            d += 1
        elif d and c == '>':
            if p[i - 1] != '-':
                d -= 1
        elif not d:
            out.append(c)
        i += 1
    return ''.join(out)


class Body(object):
    def __init__(self, j, crate):
        self.j = j
        self.crate = crate
        self.key = j['key']
        self.path = j['path']
        self.argc = j['argc']
        self.blocks = j['blocks']
        self.locals = j['locals']
        self.spread = j.get('spread')
        self.model = crate.model
        self.span = j['span']
        n = len(self.blocks)
        self.succ = [self._succ(b['t']) for b in self.blocks]
        # reverse postorder from block 0
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._dom()
        self._loops()
        self._live = None

    def _succ(self, t):
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'switch':
            r = []
            for a in t['arms'] + [[None, t['else']]]:
                if a[1] not in r:
                    r.append(a[1])
            return r
        if k == 'call':
            return [t['t']] if 't' in t else []
        return []

    def _dom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.rpon[x] > self.rpon[y]:
                            x = idom[x]
                        while self.rpon[y] > self.rpon[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def live(self, bb):
        if self._live is None:
            self._liveness()
        return self._live[bb]

    def _liveness(self):
        use, dfn = {}, {}
        for b in self.rpo:
            u, d = set(), set()

            def rd(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if isinstance(e, dict) and 'i' in e and e['i'] not in d:
                        u.add(e['i'])

            def wr(p):
                if len(p) == 1:
                    d.add(p[0])
                else:
                    rd(p)

            def op(o):
                if 'copy' in o:
                    rd(o['copy'])
                elif 'move' in o:
                    rd(o['move'])

            def rv(r):
                for f in ('o', 'a', 'b'):
                    if isinstance(r.get(f), dict):
                        op(r[f])
                if 'p' in r:
                    rd(r['p'])
                for x in r.get('ops', ()):
                    op(x)
            bl = self.blocks[b]
            for s in bl['s']:
                if s['k'] == '=':
                    rv(s['v'])
                    wr(s['p'])
                elif s['k'] in ('dead', 'live'):
                    d.add(s['l'])
            t = bl['t']
            k = t['k']
            if k in ('switch', 'assert'):
                op(t['o'])
            elif k == 'call':
                op(t['f'])
                for a in t['args']:
                    op(a)
                wr(t['d'])
            elif k == 'return':
                u.add(0) if 0 not in d else None
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        self._live = live


class Crate(object):
    def __init__(self, j, model=False):
        self.j = j
        self.model = model
        self.types = j['types']
        self.name = j['crate']


class Program(object):
    def __init__(self, repo, models):
        self.bodies = {}     # key -> Body
        self.adts = {}
        self.impls = {}      # (trait path, adt path, method) -> key
        self.models = {}     # std path -> key
        self.vp = {}         # __vp helpers by name
        self.derived = set()  # keys of derived methods
        self.derived_impls = set()  # (trait, adt)
        self.crates = []
        for j, model in ((repo, False), (models, True)):
            c = Crate(j, model)
            if not model:
                self.repo = c
            pre = 'vp!' if model else ''
            for b in j['bodies']:
                bd = Body(b, c)
                bd.key = pre + bd.key
                self.bodies[bd.key] = bd
                if model:
                    nm = b['key']
                    if nm.startswith('__vp'):
                        self.vp[nm] = bd.key
                    elif '__' in nm and not nm.startswith('vpm') and '{' not in nm:
                        self.models[nm.replace('__', '::')] = bd.key
            self.crates.append(c)
            for a in j['adts']:
                a['_crate'] = c
                self.adts.setdefault(a['path'], a)
            for i in j['impls']:
                t = c.types[i['self']]
                if t['k'] != 'adt' or 'trait' not in i:
                    continue
                for m, k in i['methods']:
                    self.impls[(i['trait'], t['path'], m)] = pre + k
                    if i['derived']:
                        self.derived.add(pre + k)
                if i['derived']:
                    self.derived_impls.add((i['trait'], t['path']))

    def find(self, suffix):
        r = [b for k, b in self.bodies.items() if not b.model and (k == suffix or k.endswith('::' + suffix))]
        return r

    def field_type(self, a, i, variant=0):
        return a['_crate'].types[a['variants'][variant]['fields'][i]['ty']]

    def variants(self, adt):
        return [v['name'] for v in self.adts[adt]['variants']]

    def variant(self, adt, name):
        for v in self.adts[adt]['variants']:
            if v['name'] == name:
                return v
        return None

    def field_index(self, adt, variant, fname):
        v = self.variant(adt, variant) if variant else self.adts[adt]['variants'][0]
        for i, f in enumerate(v['fields']):
            if f['name'] == fname:
                return i
        return None
