"""The emitted entry points are read from the token template (name, result type, start state, extraction, entry action per registered
non-terminal); which non-terminals are registered, with which state, and which become entry points, is decided on the event graphs of
generate_lr1_automaton and lower."""
from base import *
from wrap import *
import emit
import lowering
from rules import c03


class Keep(object):
    """Report that keeps only some rules (undecided ones always)."""

    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules
        self.assumptions = []

    def ok(self, r, w, d=''):
        if r in self.rules:
            self.rep.ok(r, w, d)

    def viol(self, r, w, d=''):
        if r in self.rules:
            self.rep.viol(r, w, d)

    def und(self, r, w, d=''):
        if r in self.rules:
            self.rep.und(r, w, d)

    def check(self, c, r, w, good='', bad=''):
        (self.ok if c else self.viol)(r, w, good if c else bad)
        return c

    def note(self, k, v):
        self.rep.note(k, v)


def parse_fns(E, R, W):
    """Emitted functions that call the shared parser, one per entry: [(fn, args)]."""
    out = []
    for f in R.find('fn'):
        if f.owner is None or f.body is None or not f.loops() or f.owner.name is W.type:
            continue
        try:
            b = flat(f.body.parts)
            ps = split(b, ';')
            if len(ps) != 1:
                continue
            e = expr(ps[0])
        except Odd:
            continue
        if e[0] == 'call' and e[1][0] == 'path' and len(e[2]) == 4:
            out.append((f, e))
    return out


def strip(t):
    """Through integer conversions."""
    while t.op == 'cast':
        t = t.a[0]
    return t


def some_left_out(seq, mp):
    """Entries that agree in something are taken for the same."""
    while seq.op in ('perm', 'mapproj', 'rev'):
        if seq.op == 'perm' and 'dedup_by_key' in seq.a[0]:
            b = seq
            while b.op in ('perm', 'mapproj', 'rev'):
                b = b.a[1] if b.op == 'perm' else b.a[0]
            return b.op in ('setseq', 'mapseq') and b.a[0] is mp
        seq = seq.a[1] if seq.op == 'perm' else seq.a[0]
    return False


def entries(E, R, W, rep):
    """Each registered non-terminal yields its own parser."""
    M = W.M
    w0 = M.where
    fs = parse_fns(E, R, W)
    if not fs:
        rep.und('entry', w0, 'entry points not recognised')
        return
    mp = E.I.field(M.auto, 'tuple', '', 1, '1')
    for f, e in fs:
        w = '%s fn %s::%s' % (w0, show(f.owner.name)[:40], show(f.name))
        ls = f.loops()
        if len(ls) != 1:
            rep.und('entry', w, '%d loops' % len(ls))
            continue
        it = ls[0][0]
        q = it.count
        seq = None
        if q is not None and q.op == 'len':
            seq = q.a[0]
        # taken in some other order: the emitted items do not depend on it
        for x in walk(f.owner.name):
            if seq is not None and x.op == 'elem' and x.a[1] is it.iv and x.a[0].op in ('perm', 'rev') and unperm(x.a[0]) is seq and length(x.a[0]) is q:
                seq = x.a[0]
        reg = seq is not None and unperm(seq).op in ('setseq', 'mapseq') and unperm(seq).a[0] is mp
        if not reg:
            if q is M.n_nts:
                rep.und('entry', w, 'emitted for every non-terminal under a condition')
            elif seq is not None and some_left_out(seq, mp):
                rep.viol('entry', w, 'registered entry points are left out: %s' % show(seq)[:120])
            else:
                rep.und('entry', w, 'emitted for %s' % show(q or STR('?'))[:100])
            continue
        cond = [(a, v) for a, v in f.facts() if a.op not in ('gt0', 'eq0', 'fits')]
        if cond:
            rep.viol('entry', w, 'a registered entry point is emitted only when %s' % ', '.join('%s=%s' % (show(a)[:60], v) for a, v in cond)[:200])
        else:
            rep.ok('entry', w, 'one for every registered non-terminal')
        en = elem(seq, it.iv)
        X = E.I.field(en, 'tuple', '', 0, '0')
        S = E.I.field(en, 'tuple', '', 1, '1')
        name = M.ntfield(X, 'non_terminal')
        rep.check(f.owner.name is norm_name(mk('disp', name)) or strip_name(f.owner.name) is name, 'entry name', w, 'the name of the non-terminal', 'the parser is named %s' % show(f.owner.name)[:120])
        st = [c for c in R.find('struct') if c.name is f.owner.name]
        if not st:
            rep.viol('entry name', w, 'no type of that name is emitted')
        for c in st:
            rep.check(c.pub, 'entry public', w, 'pub', 'the parser type is not pub')
        rep.check(f.pub, 'entry public', w, 'pub', 'the parse function is not pub')
        # result type: Result<TYPE, ...>
        r = flat(f.ret)
        ty = None
        i = next((k for k, x in enumerate(r) if is_(x, 'Result')), None)
        if i is not None and i + 2 < len(r) and istok(r[i + 1], '<') and isinstance(r[i + 2], Hole):
            ty = r[i + 2].term
        if ty is None:
            rep.und('entry type', w, repr(r)[:120])
        else:
            rep.check(ty is M.ntfield(X, 'return_ty'), 'entry type', w, 'the declared type', 'the result type is %s' % show(ty)[:120])
        # arguments
        a = [single_hole(flat(x)) if isinstance(x, list) else None for x in e[2]]
        st = [x for x in a if x is not None and strip(x) is S]
        act = M.gfield(elem(M.gfield(elem(M.gf(M.gn, 'non_terminals'), X), 'NonTerminal', 'productions'), INT(0)), 'Production', 'action')
        others = []
        kinds = {'state': 0, 'action': 0, 'method': 0, 'input': 0}
        for x, ns in zip(a, e[2]):
            if x is None:
                try:
                    y = expr(ns)
                except Odd:
                    rep.und('entry', w, 'argument %s' % repr(ns)[:100])
                    continue
                if y[0] == 'path' and len(y[1]) == 2 and y[1][0] is W.type:
                    kinds['method'] += 1
                    n = W.number(y[1][1], W.nt_meth)
                    if n is None:
                        if W.number(y[1][1], W.tok_meth) is not None:
                            rep.viol('extraction', w, 'the result is taken out as a token: %s' % show(y[1][1])[:120])
                        else:
                            rep.und('extraction', w, 'method %s' % show(y[1][1])[:120])
                        continue
                    g = W.nt_number(n, X)
                    if g is None:
                        rep.und('extraction', w, 'number %s' % show(n)[:120])
                    else:
                        rep.check(g, 'extraction', w, 'result: method of the own non-terminal', 'the result of non-terminal %s is taken out with number %s' % (show(X)[-40:], show(n)[:120]))
                elif y[0] == 'path' and len(y[1]) == 1:
                    kinds['input'] += 1
                else:
                    rep.und('entry', w, 'argument %s' % repr(ns)[:100])
                continue
            t = strip(x)
            if t is S:
                kinds['state'] += 1
                rep.ok('start state', w, 'the registered state')
            elif t is strip(act) or unwrap(t) is unwrap(act):
                kinds['action'] += 1
                rep.ok('entry action', w, 'the action of the entry production')
            else:
                others.append(t)
        for t in others:
            if is_state(t, seq, it.iv) or kinds['state'] == 0 and kinds['action'] == 1 and len(others) == 1:
                kinds['state'] += 1
                if is_state(t, seq, it.iv) or not contains(t, en) or t.op == 'lin' and lin(t)[1].keys() <= {S} or lossy(t, (S,)):
                    rep.viol('start state', w, 'the parser starts in state %s' % show(t)[:120])
                else:
                    rep.und('start state', w, show(t)[:150])
                continue
            kinds['action'] += 1
            if t.op == 'int' or any(y is X for y in walk(t)) or any(y is en for y in walk(t)) or lossy(t):
                rep.viol('entry action', w, 'the entry action is number %s' % show(t)[:200])
            else:
                rep.und('entry action', w, show(t)[:150])
        for k, n in kinds.items():
            if n != 1:
                rep.und('entry', w, '%d arguments for %s' % (n, k))


def unwrap(t):
    """Through newtype fields of index types."""
    t = strip(t)
    while t.op == 'field' and str(t.a[3]) == '0':
        t = strip(t.a[0])
    if t.op == 'agg' and len(t.a[2]) == 1:
        return unwrap(t.a[2][0])
    return t


def strip_name(t):
    while t is not None and t.op in ('disp', 'ident'):
        t = t.a[0]
    return t


def is_state(t, seq, iv):
    return t.op == 'field' and t.a[0].op == 'elem' and t.a[0].a[0] is seq and str(t.a[3]) == '1'


def check(ctx, rep, tier):
    E = emit.Emit(ctx)
    rep.note('event graph nodes', len(E.G.nodes))
    rep.note('emitted templates', len(E.rets))
    for R in E.rets:
        M = Model(E, R, rep)
        M.origin()
        M.numbering()
        W = Wrap(M, R, rep)
        entries(E, R, W, rep)
    c03.check(ctx, Keep(rep, {'entry states'}), tier)
    L = lowering.Lower(ctx, rep)
    L.non_terminals()
    L.entry_productions()
    L.untouched()
    rep.assumptions.append('the states reached from the start state parse the language of the entry production: C02, C03, C04')
    rep.assumptions.append('the emitted text is the value quote! builds from its template (models of quote and the token types)')
