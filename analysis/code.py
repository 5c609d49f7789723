"""Reading emitted Rust: statements and postfix expressions of a template, names as terms."""
from emit import *
from tpl import simp_facts


class Odd(Exception):
    """Emitted code of a form that is not understood."""


def flat(nodes):
    """Invisible groups removed."""
    out = []
    for n in nodes:
        if isinstance(n, Grp) and n.delim == 'None':
            out.extend(flat(n.parts))
        else:
            out.append(n)
    return out


def text(n):
    """Text of a token or of an identifier with a constant name."""
    if isinstance(n, Tok):
        return n.text
    t = nm(n)
    return t.a[0] if t is not None and t.op == 'str' else None


def nm(n):
    t = name_of(n)
    return norm_name(t) if t is not None else None


def is_(n, s):
    return text(n) == s


def split(nodes, sep):
    """Comma (semicolon...) separated pieces of a flat list; lists keep their place as pieces."""
    out, cur = [], []
    for n in nodes:
        if istok(n, sep):
            if cur:
                out.append(cur)
            cur = []
        elif isinstance(n, Lst) and not cur and (n.sep == sep or n.trail or one_stmt(n, sep)):
            out.append(n)
        else:
            cur.append(n)
    if cur:
        out.append(cur)
    return out


def one_stmt(l, sep):
    """Every alternative of a list without separator ends with sep (or is empty)."""
    return l.sep is None and all(not ps or istok(ps[-1], sep) or (isinstance(ps[-1], Grp) and ps[-1].delim == 'Brace' and sep == ';')
                                 or (len(ps) == 1 and isinstance(ps[0], Lst) and (ps[0].trail or one_stmt(ps[0], sep)))
                                 for i in l.items for f, ps in i.alts)


# ---- expressions ------------------------------------------------------------------------------------
# ('path', [names])  ('val', term)  ('call', f, args)  ('method', recv, name, args)  ('field', recv, name)
# ('ref', x)  ('group', nodes)  ('macro', name, group)
def expr(nodes):
    e, rest = expr_(flat(nodes))
    if rest:
        raise Odd('after an expression: %s' % rest[:6])
    return e


def expr_(ns):
    if not ns:
        raise Odd('missing expression')
    n = ns[0]
    if istok(n, '&'):
        k = 2 if len(ns) > 1 and is_(ns[1], 'mut') else 1
        e, r = expr_(ns[k:])
        return ('ref', e), r
    if istok(n, '*'):
        e, r = expr_(ns[1:])
        return ('deref', e), r
    i = 0
    if isinstance(n, Grp):
        if n.delim == 'Parenthesis':
            inner = flat(n.parts)
            if any(istok(x, ',') or isinstance(x, Lst) for x in inner):
                e = ('tuple', n)
            else:
                e = expr(inner) if inner else ('tuple', n)
        else:
            e = ('block', n)
        i = 1
    elif istok(n, '::') or nm(n) is not None:
        names = []
        if istok(n, '::'):
            i = 1
        while i < len(ns) and nm(ns[i]) is not None:
            names.append(ns[i])
            i += 1
            if i < len(ns) and istok(ns[i], '::'):
                i += 1
                if i < len(ns) and istok(ns[i], '<'):
                    i = angle(ns, i)
                    if i < len(ns) and istok(ns[i], '::'):
                        i += 1
                        continue
                    break
                continue
            break
        if len(names) == 1 and isinstance(names[0], Hole) and names[0].term.op not in ('ident',):
            e = ('val', names[0].term)
        else:
            e = ('path', [nm(x) for x in names])
    else:
        raise Odd('expression starting with %r' % n)
    while i < len(ns):
        n = ns[i]
        if istok(n, '.') and i + 1 < len(ns):
            name = nm(ns[i + 1])
            if name is None:
                raise Odd('after a dot: %r' % ns[i + 1])
            i += 2
            if i < len(ns) and istok(ns[i], '::') and i + 1 < len(ns) and istok(ns[i + 1], '<'):
                i = angle(ns, i + 1)
            if i < len(ns) and isinstance(ns[i], Grp) and ns[i].delim == 'Parenthesis':
                e = ('method', e, name, args(ns[i]))
                i += 1
            else:
                e = ('field', e, name)
        elif isinstance(n, Grp) and n.delim == 'Parenthesis':
            e = ('call', e, args(n))
            i += 1
        elif isinstance(n, Grp) and n.delim == 'Bracket':
            e = ('index', e, n)
            i += 1
        elif istok(n, '?'):
            e = ('try', e)
            i += 1
        elif istok(n, '!') and i + 1 < len(ns) and isinstance(ns[i + 1], Grp):
            e = ('macro', e, ns[i + 1])
            i += 2
        elif is_(n, 'as'):
            return e, []
        else:
            break
    return e, ns[i:]


def angle(ns, i):
    d = 0
    while i < len(ns):
        if istok(ns[i], '<'):
            d += 1
        elif istok(ns[i], '>'):
            d -= 1
        elif istok(ns[i], '>>'):
            d -= 2
        i += 1
        if d <= 0:
            return i
    return i


def args(g):
    return split(flat(g.parts), ',')


def statement(ns):
    """('let', mut, name node, nodes) or ('expr', nodes) or ('item', nodes)"""
    ns = flat(ns)
    if ns and is_(ns[0], 'let') and isinstance(ns[0], Tok):
        i = 1
        mut = False
        if i < len(ns) and is_(ns[i], 'mut') and isinstance(ns[i], Tok):
            mut = True
            i += 1
        if i >= len(ns):
            raise Odd('let')
        name = ns[i]
        i += 1
        if i < len(ns) and istok(ns[i], ':'):
            while i < len(ns) and not istok(ns[i], '='):
                i += 1
        if i >= len(ns) or not istok(ns[i], '='):
            raise Odd('let without value: %s' % ns)
        return ('let', mut, name, ns[i + 1:])
    return ('expr', ns)


# ---- names built from parts --------------------------------------------------------------------------
def pieces(t):
    """Parts of a name: constant strings and terms."""
    t = t.a[0] if t.op == 'ident' else t
    ps = t.a[0] if t.op == 'cat' else (t,)
    out = []
    for p in ps:
        if p.op == 'disp':
            q = p.a[0]
            if q.op == 'str':
                p = q
            elif q.op == 'ident':
                out.extend(pieces(q))
                continue
        if p.op == 'str' and out and out[-1].op == 'str':
            out[-1] = STR(out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return out


def numbered(t):
    """A name with one number in it: (prefix, number term, suffix), else None."""
    ps = pieces(t)
    ns = [p for p in ps if p.op == 'disp']
    if len(ns) != 1 or any(p.op not in ('str', 'disp') for p in ps) or len(ps) > 3:
        return None
    i = ps.index(ns[0])
    if i > 1 or len(ps) - i > 2:
        return None
    return (ps[0].a[0] if i else '', ns[0].a[0], ps[i + 1].a[0] if i + 1 < len(ps) else '')
