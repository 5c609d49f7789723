"""Emitted match patterns compared with the patterns the user wrote, and the payload parts they bind."""
from wrap import *


def adt(P, name):
    k = [x for x in P.adts if x.split('::')[-1] == name and x.startswith('ast::')] or \
        [x for x, a in P.adts.items() if x.split('::')[-1] == name and a.get('local')]
    if len(k) != 1:
        raise Undecided('type %s' % name)
    return k[0]


class Pats(object):
    """rule: prefix for the obligations; binds: does the payload get names (else it is ignored)?"""

    def __init__(self, ctx, I, rep, rule):
        self.ctx, self.P, self.I, self.rep, self.rule = ctx, ctx.P, I, rep, rule
        self.pat = adt(self.P, 'Pattern')
        self.fpat = adt(self.P, 'FieldPattern')
        self.variants = [v['name'] for v in self.P.adts[self.pat]['variants']]
        if set(self.variants) != {'Enum', 'Struct', 'Tuple', 'Path', 'Underscore', 'DotDot', 'Lit', 'Choose'}:
            raise Undecided('variants of %s' % self.pat)
        self.helpers = set()

    def pay(self, P, variant, i):
        return self.I.field(P, self.pat, variant, i, str(i))

    def kinds(self, P, facts):
        r = frozenset(self.variants)
        for a, v in facts:
            if a is mk('discr', P) and isinstance(v, frozenset):
                r &= v
        if P.op == 'agg':
            r = frozenset([P.a[1]])
        return r

    def check(self, w, P, facts, nodes, binds, payload, accs=None):
        """nodes is the emitted pattern for P; payload the names handed on (None when not applicable)."""
        for k in sorted(self.kinds(P, facts)):
            try:
                self.one(w, P, k, facts, flat(nodes), binds, payload, accs)
            except Odd as e:
                self.rep.und(self.rule, w, '%s: %s' % (k, str(e)[:150]))

    def bad(self, w, k, msg):
        self.rep.viol(self.rule, w, 'a %s pattern %s' % (k, msg))

    def good(self, w, k, msg='reproduced'):
        self.rep.ok(self.rule, w, '%s: %s' % (k, msg))

    def one(self, w, P, k, facts, ns, binds, payload, accs):
        if k in ('Underscore', 'DotDot', 'Lit', 'Path'):
            if payload:
                self.bad(w, k, 'has payload %s' % (payload,))
                return
            if k == 'Underscore':
                ok = len(ns) == 1 and is_(ns[0], '_')
            elif k == 'DotDot':
                ok = len(ns) == 1 and is_(ns[0], '..') or (len(ns) == 2 and is_(ns[0], '.') and is_(ns[1], '.'))
            else:
                ok = len(ns) == 1 and isinstance(ns[0], Hole) and ns[0].term is self.pay(P, k, 0)
            (self.good(w, k) if ok else self.bad(w, k, 'is emitted as %s' % repr(ns)[:150]))
            return
        if k == 'Choose':
            if len(ns) == 1 and isinstance(ns[0], Unk) and ns[0].term.op == 'icallv':
                raise Odd('written by a callback')
            if not binds:
                ok = len(ns) == 1 and (is_(ns[0], '_') or (text(ns[0]) or '').isidentifier())
                (self.good(w, k, 'matches anything') if ok else self.bad(w, k, 'is emitted as %s' % repr(ns)[:150]))
                return
            n = nm(ns[0]) if len(ns) == 1 else None
            if n is None or is_(ns[0], '_'):
                self.bad(w, k, 'is emitted as %s' % repr(ns)[:150])
                return
            if payload is None:
                raise Odd('payload unknown')
            if len(payload) != 1 or payload[0][0] != 'one' or payload[0][1] is not n:
                self.bad(w, k, 'binds %s, the payload is %s' % (show(n), [show(x[1]) for x in payload]))
                return
            if accs is not None:
                q = numbered(n)
                if q is None:
                    self.bad(w, k, 'always binds %s' % show(n)) if n.op == 'str' else self.rep.und(self.rule, w, show(n))
                    return
                if q[1] is not accs:
                    self.rep.und(self.rule, w, 'name of a payload part: %s' % show(n)[:150])
                    return
            self.good(w, k, 'binds the payload part')
            return
        # containers
        if k == 'Tuple':
            seqt, grp, delim = self.pay(P, k, 0), (ns[0] if len(ns) == 1 else None), 'Parenthesis'
        else:
            if len(ns) != 2 or not isinstance(ns[0], Hole) or ns[0].term is not self.pay(P, k, 0):
                self.bad(w, k, 'is emitted as %s' % repr(ns)[:150]) if len(ns) == 2 and isinstance(ns[0], Hole) else self.rep.und(self.rule, w, '%s: %s' % (k, repr(ns)[:150]))
                return
            seqt, grp, delim = self.pay(P, k, 1), ns[1], 'Brace' if k == 'Struct' else 'Parenthesis'
        if not isinstance(grp, Grp) or grp.delim != delim:
            self.bad(w, k, 'is emitted as %s' % repr(ns)[:150])
            return
        elems = []
        rest = None
        for p in self.list_items(flat(grp.parts)):
            if p[0] == 'each':
                elems.append(p[1:])
            elif p[0] == 'nodes' and len(p[1]) == 1 and is_(p[1][0], '..'):
                rest = True
            elif p[1]:
                self.bad(w, k, 'gets an additional part %s' % repr(p[1])[:100])
                return
        if rest is None:
            rest = False
        if k == 'Struct':
            flag = self.pay(P, k, 2)
            fv = [v for a, v in facts if a is flag]
            if not fv:
                self.bad(w, k, 'gets %s rest marker whatever was written' % ('a' if rest else 'no'))
                return
            if fv[0] != rest:
                self.bad(w, k, 'written %s `..` is emitted %s' % ('with' if fv[0] else 'without', 'with it' if rest else 'without it'))
                return
        elif rest:
            self.bad(w, k, 'gets a rest marker')
            return
        if len(elems) != 1:
            if not elems:
                self.bad(w, k, 'loses its parts')
                return
            raise Odd('%d lists of parts' % len(elems))
        iv, count, alts = elems[0]
        n = length(seqt)
        if count is not n:
            if count is not None and not any(x.op in ('unk', 'lv', 'seqlv', 'opq') for x in walk(count)):
                self.bad(w, k, 'with %s parts is emitted with %s' % (show(n)[-60:], show(count)[-80:]))
                return
            raise Odd('number of parts %s' % show(count)[:100])
        e = elem(seqt, iv)
        calls = []
        for f, ps in alts:
            ps = flat(ps)
            if k == 'Struct':
                name = self.I.field(e, self.fpat, '', self.P.field_index(self.fpat, '', 'field_name'), 'field_name')
                if len(ps) < 3 or not isinstance(ps[0], Hole) or not istok(ps[1], ':'):
                    raise Odd('field %s' % repr(ps)[:100])
                if ps[0].term is not name:
                    self.bad(w, k, 'field %s is emitted under the name %s' % (show(name)[-60:], show(ps[0].term)[-80:]))
                    return
                ps = ps[2:]
                sub_ = self.I.field(e, self.fpat, '', self.P.field_index(self.fpat, '', 'pattern'), 'pattern')
            else:
                sub_ = e
            if len(ps) != 1 or not isinstance(ps[0], Unk) or ps[0].term.op != 'rec':
                # written out instead of calling a helper
                raise Odd('part %s' % repr(ps)[:100])
            t = ps[0].term
            if not t.a[1] or not isinstance(t.a[1], tuple):
                raise Odd('call %s' % show(t)[:100])
            if t.a[1][0] is not sub_:
                x = t.a[1][0]
                if x.op in ('elem', 'field') and contains(x, seqt):
                    self.bad(w, k, 'part %s is emitted where part %s was written' % (show(x)[-80:], show(sub_)[-80:]))
                    return
                raise Odd('part %s' % show(x)[:100])
            self.helpers.add(t.a[0])
            calls.append(t)
        if binds:
            if payload is None:
                raise Odd('payload unknown')
            self.parts(w, k, seqt, n, calls[0], payload)
        else:
            self.good(w, k, 'every part in order')

    def callback(self, key, n):
        """The function takes something to call."""
        b = self.P.bodies.get(key)
        if b is None:
            return False
        for i in range(1, n + 1):
            t = b.crate.types[b.locals[i]['ty']]
            while t['k'] in ('ref', 'ptr'):
                t = b.crate.types[t['t']]
            if t['k'] in ('other', 'param', 'closure', 'dyn', 'infer', 'fnptr') or 'Fn' in t.get('s', ''):
                return True
        return False

    def parts(self, w, k, seqt, n, call, payload):
        """The payload is the payload of the parts, in order."""
        if any(p[0] == 'reordered' for p in payload):
            self.bad(w, k, 'hands on the payload of its parts in another order')
            return
        if len(payload) != 1 or payload[0][0] != 'each':
            if not payload:
                if call is not None and self.callback(call.a[0], len(call.a[1])):
                    raise Odd('payload through a callback')
                self.bad(w, k, 'loses the payload of its parts')
                return
            raise Odd('payload %s' % (payload,))
        _, iv, count, out = payload[0]
        if count is not n:
            self.bad(w, k, 'hands on %s payloads of %s' % (show(count)[-60:], show(n)[-60:]))
            return
        a = part_of(out.a[1][0], seqt, self.P, self.fpat)
        if a is None and any(x.op in ('perm', 'rev') and contains(x, seqt) for x in walk(out.a[1][0])):
            self.bad(w, k, 'hands on the payload of its parts in another order')
            return
        if a is None:
            raise Odd('payload of %s' % show(out.a[1][0])[:100])
        if a is not iv:
            self.bad(w, k, 'hands on the payload of part %s in place %s' % (show(a), show(iv)))
            return
        if call is not None and out.a[0] != call.a[0]:
            raise Odd('payload from %s' % out.a[0])
        self.good(w, k, 'every part in order, payloads in order')

    def list_items(self, nodes):
        out = []
        cur = []
        for n in nodes:
            if isinstance(n, Lst):
                if cur:
                    out.append(('nodes', cur))
                    cur = []
                for it in n.items:
                    if it.iv is not None:
                        out.append(('each', it.iv, it.count, [(f, drop_comma(ps)) for f, ps in it.alts]))
                    else:
                        if len(it.alts) != 1:
                            raise Odd('alternatives in a list')
                        out.append(('nodes', drop_comma(it.alts[0][1])))
            elif istok(n, ','):
                if cur:
                    out.append(('nodes', cur))
                    cur = []
            else:
                cur.append(n)
        if cur:
            out.append(('nodes', cur))
        return out


def drop_comma(ps):
    ps = flat(ps)
    if ps and istok(ps[-1], ','):
        ps = ps[:-1]
    if ps and istok(ps[0], ','):
        ps = ps[1:]
    return ps


def part_of(x, seqt, P, fpat):
    """Index of the part of seqt that x is (through its pattern field)."""
    if x.op == 'field' and x.a[1] == fpat and str(x.a[3]) == 'pattern':
        x = x.a[0]
    if x.op == 'elem' and x.a[0] is seqt:
        return x.a[1]
    return None


def payload_nodes(nodes):
    """Names in a call's argument list: [('one', name)] / [('each', iv, count, recout term)]; None when unclear."""
    out = []
    for p in split(flat(nodes), ','):
        if not isinstance(p, Lst):
            if len(p) == 1 and isinstance(p[0], (Hole, Tok)) and nm(p[0]) is not None:
                out.append(('one', nm(p[0])))
                continue
            return None
        for it in p.items:
            for f, ps in it.alts:
                ps = flat(ps)
                if it.iv is None or it.count is INT(1):
                    if len(it.alts) != 1 or len(ps) != 1 or nm(ps[0]) is None:
                        return None
                    out.append(('one', nm(ps[0])))
                    continue
                if len(it.alts) != 1 or len(ps) != 1:
                    return None
                if isinstance(ps[0], Hole):
                    t = ps[0].term.a[0] if ps[0].term.op == 'ident' else ps[0].term
                    if t.op == 'elem' and (lin(t.a[1])[1].get(it.iv) == -1 or t.a[0].op == 'perm') and any(x.op == 'recout' for x in walk(t.a[0])):
                        out.append(('reordered', t))
                        continue
                if isinstance(ps[0], Lst) and len(ps[0].items) == 1:
                    j = ps[0].items[0]
                    if j.iv is None or len(j.alts) != 1 or len(j.alts[0][1]) != 1 or not isinstance(j.alts[0][1][0], Hole):
                        return None
                    t = j.alts[0][1][0].term
                    if t.op == 'ident':
                        t = t.a[0]
                    if t.op != 'elem' or t.a[0].op != 'recout' or j.count is not length(t.a[0]) or t.a[1] is not j.iv:
                        return None
                    out.append(('each', it.iv, it.count, t.a[0]))
                    continue
                return None
    return out


def payload_term(t, base=None):
    """The same for the sequence a helper leaves behind; base is what it held before."""
    ps = parts(t) if t.op == 'seq' else (('s', t),)
    if base is not None:
        if t is base:
            return []
        if not ps or ps[0] != ('s', base):
            return None
        ps = ps[1:]
    out = []
    for k, x in ps:
        if k == 'e':
            out.append(('one', x.a[0] if x.op == 'ident' else x))
        elif x.op == 'seqrep' and x.a[1] is EMPTY and len(x.a[2]) == 1 and len(x.a[2][0][1]) == 1:
            k2, y = x.a[2][0][1][0]
            if k2 != 's' or y.op != 'recout':
                return None
            out.append(('each', mk('iv', x.a[0]), x.a[3], y))
        else:
            return None
    return out


def if_let(ns):
    """if let P = x { a } else { b }   and   let P = x else { b }; a   as a match."""
    q = [i for i, n in enumerate(ns) if istok(n, 'let')]
    e = [i for i, n in enumerate(ns) if istok(n, 'else')]
    eq = [i for i, n in enumerate(ns) if istok(n, '=')]
    brace = lambda i: 0 <= i < len(ns) and isinstance(ns[i], Grp) and ns[i].delim == 'Brace'
    if len(q) != 1 or len(e) != 1 or not eq or eq[0] < q[0] or not brace(e[0] + 1):
        return None
    p, other = ns[q[0] + 1:eq[0]], flat(ns[e[0] + 1].parts)
    if q[0] == 1 and istok(ns[0], 'if') and brace(e[0] - 1) and e[0] + 2 == len(ns):
        subj, mine = ns[eq[0] + 1:e[0] - 1], flat(ns[e[0] - 1].parts)
    elif q[0] == 0 and e[0] + 2 < len(ns) and istok(ns[e[0] + 2], ';'):
        subj, mine = ns[eq[0] + 1:e[0]], ns[e[0] + 3:]
    else:
        return None
    return subj, [(None, frozenset(), p, mine), (None, frozenset(), [Tok('_', 'i')], other)]


def match_arms(body):
    """(scrutinee nodes, arms) of a function that is one match; arm = (item or None, facts, pattern nodes, body nodes)."""
    ns = flat(body.parts)
    one = if_let(ns)
    if one is not None:
        return one
    k = [i for i, n in enumerate(ns) if istok(n, 'match')]
    if len(k) != 1 or k[0] != 0:
        raise Odd('not a single match')
    g = next((i for i, n in enumerate(ns) if isinstance(n, Grp) and n.delim == 'Brace'), None)
    if g is None or any(not istok(x, ';') for x in ns[g + 1:]):
        raise Odd('code after the match')
    arms = []
    cur = []

    def arm(it, f, ps):
        ps = flat(ps)
        i = next((q for q, n in enumerate(ps) if istok(n, '=>')), None)
        if i is None:
            raise Odd('arm %s' % repr(ps)[:100])
        b = ps[i + 1:]
        while b and istok(b[-1], ','):
            b = b[:-1]
        if len(b) == 1 and isinstance(b[0], Grp) and b[0].delim == 'Brace':
            b = flat(b[0].parts)
        arms.append((it, f, ps[:i], b))
    rest = flat(ns[g].parts)
    for n in rest:
        if isinstance(n, Lst):
            if cur:
                arm(None, frozenset(), cur)
                cur = []
            for it in n.items:
                for f, ps in it.alts:
                    if it.iv is None and not ps:
                        continue
                    arm(it if it.iv is not None else None, f, drop_comma(ps) if True else ps)
        elif istok(n, ',') and any(istok(x, '=>') for x in cur):
            arm(None, frozenset(), cur)
            cur = []
        elif istok(n, ',') and not cur:
            continue
        else:
            cur.append(n)
            if isinstance(n, Grp) and n.delim == 'Brace' and len(cur) > 1 and istok(cur[-2], '=>'):
                arm(None, frozenset(), cur)
                cur = []
    if cur:
        arm(None, frozenset(), cur)
    return ns[1:g], arms


class Held(Pats):
    """What the wrapper of a token holds: the types of the payload parts of its pattern, in the written order."""

    def kind(self, w, P, k, pay):
        if pay is None:
            raise Odd('parts of the wrapper')
        if k == 'Choose':
            t = self.pay(P, k, 0)
            bare = lambda x: bare(x.a[0]) if x.op in ('disp', 'deref', 'clone', 'strof') else x
            if len(pay) == 1 and pay[0][0] == 'one' and bare(pay[0][1]) is t:
                self.good(w, k, 'its type')
            elif any(x[0] != 'one' or any(y.op in ('lv', 'opq', 'unk', 'rec', 'recout') for y in walk(x[1])) for x in pay):
                raise Odd('parts %s' % (pay,))
            else:
                self.bad(w, k, 'is held as %s' % [show(x[1])[:60] for x in pay])
        elif k in ('Underscore', 'DotDot', 'Lit', 'Path'):
            if pay:
                self.bad(w, k, 'has parts %s' % [show(x[1])[:60] for x in pay])
            else:
                self.good(w, k, 'no parts')
        else:
            seqt = self.pay(P, k, 0 if k == 'Tuple' else 1)
            if len(pay) == 1 and pay[0][0] == 'each':
                self.helpers.add(pay[0][3].a[0])
            self.parts(w, k, seqt, length(seqt), None, pay)


def held(ctx, E, W, rep):
    H = Held(ctx, E.I, rep, 'wrapper of a token')
    padt = adt(ctx.P, 'Conversion')
    for it, f, n, g in W.tok:
        P = E.I.field(elem(W.conv, it.iv), padt, '', ctx.P.field_index(padt, '', 'to'), 'to')
        f = frozenset(f)
        for k in sorted(H.kinds(P, f)):
            try:
                H.kind(W.w, P, k, payload_nodes(g.parts) if g is not None else [])
            except Odd as e:
                rep.und(H.rule, W.w, '%s: %s' % (k, str(e)[:150]))
    todo, done = set(H.helpers), set()
    while todo:
        h = todo.pop()
        if h in done:
            continue
        done.add(h)
        I = ctx.run(h)
        Q = Held(ctx, I, rep, H.rule)
        for r in I.rets:
            facts = tpl.simp_facts(frozenset(r.facts.items()))
            if facts is None:
                continue
            outs = list(r.data[1]) if len(r.data) > 1 and isinstance(r.data[1], tuple) else []
            if len(outs) > 1:
                rep.und(H.rule, h, 'helper with several results')
                continue
            pay = payload_term(outs[0][1], I.params[outs[0][0] - 1]) if outs else payload_term(r.data[0])
            for k in sorted(Q.kinds(I.params[0], facts)):
                try:
                    Q.kind(h, I.params[0], k, pay)
                except Odd as e:
                    rep.und(H.rule, h, '%s: %s' % (k, str(e)[:150]))
        todo |= Q.helpers
