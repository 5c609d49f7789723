"""The emitted wrapper type, its extraction methods, the value function, the action functions and the entry points are read from the
token template; the wrapper a value is put into and the one it is taken from are compared as terms, and the numbering of the wrappers
of non-terminals (shared only by equal types) is decided on the loop that computes it."""
from base import *
from pats import *
import emit
from rules import c06, c10, c11, c12


class Part(object):
    """Collects the obligations of another rule set, keeping some rules."""

    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules

    def put(self, k, rule, w, d):
        if rule in self.rules or (k == 'und' and self.rules.get('*')):
            getattr(self.rep, k)(rule, w, d)

    def ok(self, r, w, d=''):
        self.put('ok', r, w, d)

    def viol(self, r, w, d=''):
        self.put('viol', r, w, d)

    def und(self, r, w, d=''):
        self.put('und', r, w, d)

    def check(self, c, r, w, good='', bad=''):
        self.put('ok' if c else 'viol', r, w, good if c else bad)
        return c

    def note(self, k, v):
        pass


def numbers(W):
    """Sequences that give the wrapper numbers of non-terminals, wherever such a number is used."""
    out = {}
    for n in walk_nodes(W.R.nodes):
        if isinstance(n, (Hole, Unk)):
            t = nm(n) if isinstance(n, Hole) else None
            if t is None:
                continue
            for what in (W.nt_name, W.nt_meth):
                x = W.number(t, what)
                if x is not None and x.op == 'elem' and x.a[0].op == 'seqrep':
                    out.setdefault(x.a[0], t)
    return out


def by_size(G, c, L, ms):
    """The number is how many types are remembered when the turn begins, and every type that was not found is remembered in that turn."""
    if c.op != 'len' or c.a[0].op != 'setseq' or c.a[0].a[1] != ('L', L):
        return False
    m = G.root(c.a[0].a[0])
    if m not in {G.root(x) for x in ms}:
        return False
    miss = [n for n in G.kind('cond') if L in n.loops and
            (n.data[0].op == 'has' and n.data[1] is False and G.root(n.data[0].a[0]) is m or
             n.data[0].op == 'discr' and n.data[0].a[0].op == 'get' and G.root(n.data[0].a[0].a[0]) is m and n.data[1] == frozenset(['None']))]
    return bool(miss) and not any(path(n, lambda k: k.kind in ('hdr', 'ret') and (k.kind == 'ret' or k.data[0] == L), lambda k: k.kind == 'ins' and G.root(k.data[0]) is m) for n in miss)


def numbering(W, rep):
    M = W.M
    w = W.w
    if W.identity():
        rep.ok('wrapper numbers', w, 'every non-terminal has its own wrapper')
        return
    fresh = {}
    for it, f, n, g in W.nt:
        x = numbered(n)
        if x is None or g is None:
            rep.und('wrapper numbers', w, 'variant %s' % show(n)[:100])
            return
        t = single_hole(flat(g.parts))
        if t is None:
            rep.und('wrapper type', w, repr(g)[:100])
        elif t is M.ntfield(it.iv, 'return_ty'):
            rep.ok('wrapper type', w, 'a new wrapper holds the type of the non-terminal it is introduced for')
        else:
            rep.viol('wrapper type', w, 'a wrapper introduced for non-terminal %s holds %s' % (show(it.iv), show(t)[:100]))
        fresh[x[1]] = (it, f)
    Vs = numbers(W)
    if not Vs:
        rep.und('wrapper numbers', w, 'numbers not found')
        return
    info = M.E.I.loopinfo
    for V, used in Vs.items():
        L = V.a[0]
        iv = mk('iv', L)
        if V.a[1] is not EMPTY or V.a[3] is not M.n_nts:
            rep.und('wrapper numbers', w, 'a number for %s non-terminals' % show(V.a[3])[:60])
            continue
        ty = M.ntfield(iv, 'return_ty')
        maps = set()
        cs = set()
        for f, ps in V.a[2]:
            if len(ps) != 1 or ps[0][0] != 'e':
                rep.und('wrapper numbers', w, '%d numbers for a non-terminal' % len(ps))
                continue
            v = ps[0][1]
            o = some_of(v)
            if o is not None and o.op == 'get':
                key = o.a[1]
                maps.add((o.a[0], key))
                if key is ty or written(key, ty):
                    rep.ok('shared wrapper', w, 'number found under the own type')
                elif part(key, ty) is not None:
                    rep.viol('shared wrapper', w, 'a type is looked up as its part %s, and shares the wrapper of that type' % show(part(key, ty))[-80:])
                elif ty not in set(subterms(key)):
                    rep.viol('shared wrapper', w, 'the wrapper of a non-terminal is looked up by %s' % show(key)[:100])
                elif heads(key, ty) and not any(x.op == 'field' and str(x.a[3]) in ('arguments', 'args') for a, _ in f for x in subterms(a)):
                    rep.viol('shared wrapper', w, 'types that differ in their arguments share a wrapper: it is looked up by %s' % show(key)[:150])
                elif rest(M.P, key, ty, f):
                    rep.viol('shared wrapper', w, 'types that differ in their %s share a wrapper: it is looked up by %s' % (rest(M.P, key, ty, f), show(key)[:150]))
                else:
                    rep.und('shared wrapper', w, 'number looked up by %s' % show(key)[:100])
            elif v in fresh:
                it, ff = fresh[v]
                if it.iv is not iv:
                    rep.und('wrapper numbers', w, 'numbers and wrappers are computed in different loops')
                    continue
                cs.add(v)
                rep.ok('new wrapper', w, 'the number of the wrapper introduced')
            elif v.op == 'int' or lin(v)[1].keys() <= set(fresh):
                rep.viol('wrapper numbers', w, 'a non-terminal gets number %s, the wrapper introduced for it has %s' % (show(v), ', '.join(show(x) for x in fresh)))
            else:
                rep.und('wrapper numbers', w, show(v)[:100])
        # what is remembered
        ms = {m for m, k in maps}
        for n in M.E.G.kind('ins'):
            m = n.data[0]
            if M.E.G.root(m) not in {M.E.G.root(x) for x in ms}:
                continue
            ww = where(n)
            k, v = n.data[1], n.data[2]
            ks = {subst(kk, {}) for _, kk in maps}
            if k in ks:
                rep.ok('remembered', ww, 'under the type of the non-terminal')
            elif not any(x is ty for x in subterms(k)):
                rep.viol('remembered', ww, 'a wrapper is remembered under %s and looked up under %s' % (show(k)[:80], show(list(ks)[0])[:80]))
            else:
                rep.und('remembered', ww, 'under %s' % show(k)[:100])
            if v in fresh:
                rep.ok('remembered', ww, 'the number of the wrapper introduced')
            elif v.op == 'int' or lin(v)[1].keys() <= set(fresh):
                rep.viol('remembered', ww, 'number %s is remembered for the wrapper with number %s' % (show(v), ', '.join(show(x) for x in fresh)))
            else:
                rep.und('remembered', ww, show(v)[:100])
        # new numbers are new
        for c in cs:
            if by_size(M.E.G, c, L, ms):
                rep.ok('new wrapper', w, 'numbered by how many there are')
                continue
            st = growth(info, c, L, maps)
            if st is None:
                rep.und('new wrapper', w, 'counter %s' % show(c)[:80])
                continue
            for fr, step in st:
                if step is None:
                    rep.und('new wrapper', w, 'counter %s' % show(c)[:80])
                elif fr and step <= 0:
                    rep.viol('new wrapper', w, 'a number is used for a new wrapper and used again')
                elif step < 0:
                    rep.viol('new wrapper', w, 'the numbers of wrappers are counted down')
                elif fr:
                    rep.ok('new wrapper', w, 'a number used is not used again')


def growth(info, c, L, maps):
    """[(a wrapper was introduced, change of the counter)] per way through the loop."""
    if c.op != 'lv' or L not in info:
        return None
    inf = info[L]
    leaf = None
    for lf, (k, init, s) in inf['leaves'].items():
        if s is c:
            leaf = lf
    if leaf is None:
        return None
    out = []
    for s, H, tgt, delta in inf['backs']:
        try:
            cur = getleaf(s, leaf)
        except Exception:
            return None
        d = sub(cur, c)
        # looked up as absent before anything was entered in this step
        fr = False
        for a, v in s.facts.items():
            if a.op == 'has' and (a.a[0], a.a[1]) in maps and v is False:
                fr = True
        out.append((fr or not maps, d.a[0] if d.op == 'int' else None))
    return out


def written(key, ty):
    """The key is the text of the type."""
    return key is mk('disp', mk('seq', (('e', mk('hole', ty, 'syn::ty::Type')),)))


def part(key, ty):
    """The part of the type (other than what stands in parentheses) whose key is taken for the whole."""
    x = key
    if key.op == 'rec':
        xs = [y for y in children(key) if hasattr(y, 'op')]
        xs = [z for y in xs for z in (children(y) if y.op in ('args', 'tuple', 'seq', 'list') else (y,))]
        xs = [y for y in xs if ty in set(subterms(y))] or [y for y in key.a[1] if hasattr(y, 'op')] if isinstance(key.a[1], tuple) else xs
        if len(xs) != 1:
            return None
        x = xs[0]
    elif key.op == 'disp' and key.a[0].op == 'seq' and len(key.a[0].a[0]) == 1 and key.a[0].a[0][0][0] == 'e' and key.a[0].a[0][0][1].op == 'hole':
        x = key.a[0].a[0][0][1].a[0]
    y, via = x, []
    one = False
    while y is not ty:
        if y.op == 'field':
            via.append(y)
            y = y.a[0]
        elif y.op == 'elem' or y.op == 'opq' and isinstance(y.a[0], str) and y.a[0].split('::')[-1] in ('last', 'first') and len(y.a[2]) == 1:
            one = True      # one element of a list
            y = y.a[0] if y.op == 'elem' else y.a[2][0]
        else:
            break
    if y is not ty or x is ty:
        return None
    if not one and all(str(f.a[2]) in ('Paren', 'Group') for f in via if f.a[0] is ty):
        return None
    return x


def rest(P, key, ty, facts):
    """The key of a type of some kind is made of parts of it: what is missing from the parts."""
    kinds, names = set(), set()
    todo = [key]
    while todo:
        x = todo.pop()
        if x is ty or x.op in ('rec', 'recout', 'opq'):
            return None
        b = x.a[0] if x.op == 'field' else None
        if b is not None and b.op == 'field' and b.a[0] is ty:
            kinds.add(b.a[2])
            names.add(x.a[3])
            continue
        if b is ty:
            return None
        todo += list(children(x))
    if len(kinds) != 1:
        return None
    v = P.adts.get('syn::ty::Type%s' % list(kinds)[0])
    if v is None:
        return None
    for n in [f['name'] for f in v['variants'][0]['fields']]:
        if n not in names and not n.endswith('token') and n not in ('attrs', 'bracket', 'paren') and not any(
                x.op == 'field' and x.a[3] == n for a, _ in facts for x in subterms(a)):
            return n
    return None


def heads(key, ty):
    """The key is made of names of path segments of the type, and of nothing else of it."""
    n = 0
    todo = [key]
    while todo:
        x = todo.pop()
        if x is ty:
            return False
        if x.op == 'field' and str(x.a[3]) == 'ident' and x.a[0].op == 'elem' and x.a[0].a[0].op == 'field' and str(x.a[0].a[0].a[3]) == 'segments':
            n += 1
            continue
        if x.op == 'len':
            continue
        todo += list(children(x))
    return n > 0


def check(ctx, rep, tier):
    E, failed = Emit(ctx), None
    try:
        E = c11.run(ctx, Part(rep, {'value wrapper': 1}), only_wrapper=True)
    except Undecided as e:
        failed = e
    rep.note('event graph nodes', len(E.G.nodes))
    rep.note('emitted templates', len(E.rets))
    for R in E.rets:
        M = Model(E, R, rep)
        W = Wrap(M, R, rep, 'wrapper')
        if failed is not None:
            raise failed
        methods(W, rep)
        held(ctx, E, W, rep)
        numbering(W, rep)
        hit = c06.action_order(M, R, Part(rep, {}))
        if not hit:
            rep.und('action functions', M.where, 'not identified')
        for f, a, b, _ in hit or []:
            F = c10.Fn(W, f, a.iv, b.iv, Part(rep, {'push': 1, 'extraction': 1, 'pops': 1, 'which symbol': 1}))
            try:
                F.run()
            except Odd as e:
                rep.und('action function', F.w, str(e)[:200])
        c12.entries(E, R, W, Part(rep, {'extraction': 1}))
    rep.assumptions.append('the emitted text is the value quote! builds from its template (models of quote and the token types)')
    rep.assumptions.append('equality and hashing of syn::Type agree with the types written')
