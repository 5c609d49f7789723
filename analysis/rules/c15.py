"""Narrowing analysis.  The expansion is analysed from the macro entry with every call inlined: (1) each `as` cast to a
narrower integer must be guarded, or be the 32-bit count of things written in the grammar text; (2) each checked
narrowing (try_from/try_into) whose failure is possible must fail the expansion, never continue with another number;
(3) no arithmetic in integers of 16 bits or fewer, no wrapping/saturating/masking arithmetic on the numbers that reach
generated tables; (4) the generated parser's own code contains no narrowing cast."""
from base import *
import reach
import mir
import re

NARROW = {'u8': 8, 'u16': 16, 'u32': 32, 'i8': 7, 'i16': 15, 'i32': 31}
LOSSY = re.compile(r'::(wrapping|saturating|overflowing|unchecked)_(add|sub|mul|neg|shl|shr|pow)(_unsigned|_signed)?$|'
                   r'::(Wrapping|Saturating)$|::num::(wrapping|saturating)::|::unwrap_unchecked$|::to_int_unchecked$')


def written(I, v):
    """Is v the number of (or an index into) things written in the grammar text?"""
    c, d = lin(v)
    for x in d:
        base_ = None
        if x.op == 'len':
            base_ = x.a[0]
        if x.op == 'iv' and x.a[0] in I.loopinfo:
            # the counter of a loop that ends when it reaches such a number
            ts = I.loopinfo[x.a[0]].get('trips') or ()
            if any(not any(y.op == 'iv' for y in walk(t)) and written(I, t) for t in ts):
                continue
        if base_ is None:
            return False
        if not container_written(I, base_):
            return False
    return True


def container_written(I, b):
    t = I.typ.get(b)
    if t is not None:
        ty, crate = t
        if ty['k'] == 'adt' and ty.get('args'):
            e = crate.types[ty['args'][0]]
            p = e.get('path', '')
            if ty['path'] in ('alloc::vec::Vec', 'syn::punctuated::Punctuated'):
                return p.startswith(('grammar::', 'ast::', 'syn::', 'alloc::string::'))
    if b.op in ('seq', 'seqrep', 'seqlv', 'lv'):
        if b.op == 'seqlv':
            return container_written(I, b.a[2])
    return False


def nonlinear(t):
    for x in walk(t):
        if x.op == 'arith' and x.a[0] in ('BitAnd', 'Rem', 'Shr', 'Div', 'Shl', 'BitXor'):
            return x
        if x.op == 'opq' and isinstance(x.a[0], str) and re.search(r'::(min|max|clamp)$', x.a[0]):
            return x
        if x.op in ('min', 'max', 'wrap'):
            return x
    return None


def template_nodes(t, seen=None):
    for x in walk(t):
        yield x


def check(ctx, rep, tier):
    P = ctx.P
    I = ctx.run('parser')
    ret = lambda n: n.kind == 'ret' and not is_error(n)
    n_c = n_f = 0
    for n in I.live_nodes:
        if n.kind == 'cast' and len(n.data) == 3 and n.data[2] in NARROW:
            v, a, b = n.data
            n_c += 1
            w = where(n)
            if guarded(I, n, v, NARROW[b]):
                rep.ok('cast', w, '%s as %s guarded' % (show(v)[:120], b))
            elif NARROW[b] >= 31 and written(I, v):
                rep.ok('cast', w, '%s as %s: counts written items' % (show(v)[:120], b))
            else:
                if path(n, ret) is not None:
                    rep.viol('cast', w, '%s: %s as %s may drop bits' % (show(v)[:160], a, b))
        if n.kind == 'cond' and n.data[0].op == 'fits' and n.data[1] is False:
            n_f += 1
            p = path(n, ret)
            if p is not None:
                rep.viol('checked narrowing', where(n), 'a number that does not fit %s does not stop the expansion: %s' % (
                    show(n.data[0].a[1]), show_path(p)))
            else:
                rep.ok('checked narrowing', where(n), show(n.data[0])[:160])
            x = nonlinear(n.data[0].a[0])
            if x is not None:
                rep.viol('masked', where(n), 'the number is reduced before it is checked: %s' % show(x)[:200])
    rep.note('casts', n_c)
    rep.note('checked narrowings', n_f)
    rep.note('event graph nodes', len(I.live_nodes))
    # numbers that reach the generated code
    nh = 0
    for r in I.rets:
        for x in walk(r.data[0]):
            if x.op == 'hole' and isinstance(x.a[1], str) and x.a[1].split('::')[-1] in ('usize', 'u8', 'u16', 'u32', 'u64'):
                nh += 1
                y = nonlinear(x.a[0])
                if y is not None:
                    rep.viol('masked', 'generated code', 'a table number is reduced: %s' % show(y)[:200])
            if x.op == 'seq':
                ps = x.a[0]
                for i in range(len(ps) - 1):
                    if ps[i][0] == 'e' and ps[i + 1][0] == 'e' and tok(ps[i][1]) == 'as' and tok(ps[i + 1][1]) in NARROW:
                        if tok(ps[i + 1][1]) in ('u32', 'i64'):
                            # wide enough for every number in the tables
                            rep.und('generated cast', 'generated code', 'a cast to %s' % tok(ps[i + 1][1]))
                        else:
                            rep.viol('generated cast', 'generated code', 'the generated parser casts to %s' % tok(ps[i + 1][1]))
    rep.check(nh > 0, 'table numbers', 'generated code', '%d interpolated numbers' % nh, 'no interpolated numbers found') \
        if False else rep.note('interpolated numbers', nh)
    # MIR scan of everything reachable
    seen, g = reach.reachable(P)
    ops = 0
    for k in sorted(seen):
        b = P.bodies[k]
        fmt = k.split('::')[-1] in ('fmt', 'hash', 'eq', 'cmp', 'partial_cmp', 'clone')
        for j, x in g[k][1]:
            p = mir.strip_generics(j['path'])
            if LOSSY.search(p) and not fmt:
                rep.viol('lossy arithmetic', b.span, '%s uses %s' % (k, p))
        for bl in b.blocks:
            if bl.get('cleanup') or fmt:
                continue
            for s in bl['s']:
                if s['k'] == '=' and s['v'].get('r') == 'bin':
                    o = s['v']
                    op = o['op'].replace('WithOverflow', '').replace('Unchecked', '')
                    if op in ('Add', 'Sub', 'Mul', 'Shl'):
                        ops += 1
                        ty = optype(b, o['a'])
                        if ty in ('u8', 'u16', 'i8', 'i16'):
                            rep.viol('narrow arithmetic', s['sp'], '%s computes %s in %s, which wraps in release builds' % (k, op, ty))
        for l in b.locals:
            t = P.repo.types[l['ty']]['s']
            if re.search(r'Range(From|Inclusive)?<(u8|u16|i8|i16)>', t):
                rep.viol('narrow arithmetic', b.span, '%s iterates over %s' % (k, t))
    rep.note('arithmetic operations', ops)
    rep.note('functions', len(seen))
    rep.check(n_f >= 1, 'coverage', 'parser', '%d checked narrowings, %d casts' % (n_f, n_c), 'no narrowing of table numbers found') \
        if n_f else rep.und('coverage', 'parser', 'no checked narrowing found')
    rep.assumptions += ['a source file is smaller than 4 GiB (rustc\'s own limit), so the number of things written in one grammar is below 2^32']


def tok(x):
    return x.a[1] if x.op == 'tok' else None


def is_error(n):
    for x in walk(n.data[0]):
        if x.op == 'opq' and 'to_compile_error' in str(x.a[0]):
            return True
    return False


def guarded(I, n, v, bits):
    lim = (1 << bits) - 1
    st = interp.State({}, n.facts, {}, None)
    try:
        if I.decide(st, gt0(sub(v, INT(lim)))) is False:
            return True
    except Exception:
        pass
    for f, val in n.facts.items():
        if f.op == 'fits' and val and f.a[0] is v and NARROW.get(f.a[1], 64) <= bits:
            return True
    return False


def optype(b, o):
    T = b.crate.types
    if 'const' in o:
        return T[o['const']['ty']]['s']
    pl = o.get('copy') or o.get('move')
    if pl is None:
        return None
    if len(pl) == 1:
        return T[b.locals[pl[0]]['ty']]['s']
    for e in reversed(pl[1:]):
        if isinstance(e, dict) and 't' in e:
            return T[e['t']]['s']
        if isinstance(e, str):
            t = T[b.locals[pl[0]]['ty']] if len(pl) == 2 else None
            if t and 't' in t:
                return T[t['t']]['s']
        return None
