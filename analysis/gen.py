"""The emitted parser driver as Rust: the emitted items that do not depend on the grammar's size are written out with the holes filled by
distinct numbers and names, compiled to MIR (never run) and analysed like the generator itself."""
import os
import re
import base
import dump
import interp
import mir
import prims
from code import *
from shape import Model
from wrap import Wrap

Undecided = base.Undecided
TOKEN = 'VpToken'


class Gen(object):
    def __init__(self, ctx, E, R, rep):
        self.ctx, self.E, self.R = ctx, E, R
        self.M = M = Model(E, R, rep)
        self.W = Wrap(M, R, rep)
        self.nums = {}        # number -> term
        self.back = {}
        self.idents = {}
        self.stubs = set()
        self.fns = {}
        k = self.W.tokadt[0]
        self.tokname = lambda t: t.op == 'field' and t.a[1] == k and str(t.a[3]) == 'type_name'
        self.life = lambda t: t is not None and t.op == 'len' and t.a[0].op == 'field' and t.a[0].a[1] == k and str(t.a[0].a[3]) == 'type_lifetimes'
        self.base = {}
        self.src = self.file()

    # -- holes ----------------------------------------------------------------------------------
    def number(self, t):
        """A number that stands for the term; sums of lengths stay sums."""
        c, d = lin(t)
        v = c
        for x, n in d.items():
            if x not in self.base:
                self.base[x] = (101, 211, 307, 401, 503, 607, 701, 809, 907)[len(self.base) % 9] + 1000 * (len(self.base) // 9)
            v += n * self.base[x]
        if v < 0 or self.nums.get(v, t) is not t:
            raise Odd('number %s' % show(t)[:80])
        self.nums[v] = t
        return str(v)

    def ident(self, t):
        if t.op == 'str':
            return t.a[0]
        if t not in self.idents:
            self.idents[t] = 'vp_name_%d' % len(self.idents)
        return self.idents[t]

    def render(self, nodes, out=None):
        out = [] if out is None else out
        for n in nodes:
            if isinstance(n, Tok):
                out.append(n.text)
            elif isinstance(n, Grp):
                o, c = {'Parenthesis': '()', 'Brace': '{}', 'Bracket': '[]'}.get(n.delim, ('', ''))
                out.append(o)
                self.render(n.parts, out)
                out.append(c)
            elif isinstance(n, Hole):
                t = n.term
                if t.op == 'ident':
                    out.append(self.ident(norm_name(t.a[0])))
                elif self.tokname(t):
                    out.append(TOKEN)
                elif t.op == 'str':
                    out.append('"%s"' % t.a[0].replace('\\', '\\\\').replace('"', '\\"'))
                elif intlike(t):
                    out.append(self.number(t) + 'usize')
                else:
                    raise Odd('hole %s' % show(t)[:80])
            elif isinstance(n, Lst):
                for it in n.items:
                    if it.iv is None and len(it.alts) == 1:
                        self.render(it.alts[0][1], out)
                    elif self.life(it.count):
                        continue
                    else:
                        raise Odd('list %s' % repr(n)[:80])
            else:
                raise Odd(repr(n)[:80])
        return out

    def text(self, nodes):
        return ' '.join(x for x in self.render(nodes) if x)

    # -- the file ---------------------------------------------------------------------------------
    def file(self):
        out = ['#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]', 'pub struct %s;' % TOKEN]
        skipped = []
        for c in self.R.top:
            if c.loops():
                continue
            if c.kind == 'enum' and c.name is self.W.type:
                out.append('pub enum %s { VpA, VpB(u64) }' % self.ident(c.name))
                continue
            try:
                if c.kind == 'static':
                    ty = self.text(c.ty)
                    if ty in ('usize', 'u64', 'u32', 'u16', 'u8', 'isize', 'i64', 'i32'):
                        try:
                            v = self.text(c.value)
                            out.append('const %s : %s = (%s) as %s ;' % (self.ident(c.name), ty, v, ty))
                            continue
                        except Odd:
                            pass
                    out.append('static %s : %s = %s ;' % (self.ident(c.name), ty, init(ty)))
                elif c.kind == 'fn':
                    out.append(self.fn(c))
                elif c.kind == 'impl' and c.name is self.W.type:
                    continue
                elif c.kind in ('struct', 'type', 'use', 'trait', 'impl', 'enum', 'mod'):
                    out.append('#[derive(Clone, Copy)]' if c.kind in ('enum', 'struct') and self.copy(c) else '')
                    out.append(('pub ' if c.kind in ('enum', 'struct', 'trait', 'type') else '') + self.text(c.nodes))
            except Odd as e:
                skipped.append('%s: %s' % (c, e))
        self.skipped = skipped
        return '\n'.join(x for x in out if x) + '\n'

    def copy(self, c):
        """Is the item derived Copy (attributes stand before it)?"""
        ns = self.R.nodes
        for i, n in enumerate(ns):
            if n is c.nodes[0]:
                j = i - 1
                while j >= 1 and not istok(ns[j], ';') and not (isinstance(ns[j], Grp) and ns[j].delim == 'Brace'):
                    if isinstance(ns[j], Grp) and ns[j].delim == 'Bracket' and any(is_(x, 'Copy') for x in walk_nodes(ns[j].parts)):
                        return True
                    j -= 1
        return False

    def fn(self, c):
        head = self.text(c.nodes[:-1])
        try:
            body = self.text(c.nodes[-1:])
        except Odd:
            body = '{ loop { } }'
            self.stubs.add(self.ident(c.name))
        self.fns[self.ident(c.name)] = c
        return 'pub ' + head + body

    # -- analysis ---------------------------------------------------------------------------------------
    def program(self):
        d = os.path.join(dump.BUILD, 'gen')
        os.makedirs(d, exist_ok=True)
        import hashlib
        p = os.path.join(d, 'vpgen-%s.rs' % hashlib.sha256(self.src.encode()).hexdigest()[:16])
        if not os.path.exists(p):
            q = p + '.%d' % os.getpid()
            with open(q, 'w') as f:
                f.write(self.src)
            os.rename(q, p)
        return mir.Program(dump.dump_file(p, 'vpgen'), dump.dump_file(base.MODELS, 'vpmodels'))

    def context(self):
        c = base.Ctx()
        c._p = self.program()
        return c


def intlike(t):
    if t.op in ('int', 'lin', 'len'):
        return True
    if t.op == 'field':
        return True
    return t.op in ('elem', 'get', 'cast', 'sym')


def init(ty):
    """A value of a table type, without meaning."""
    ty = ty.strip()
    if ty.startswith('['):
        body = ty[1:-1]
        d = 0
        for i in range(len(body) - 1, -1, -1):
            ch = body[i]
            if ch in ')]>' and not (ch == '>' and body[i - 1] == '-'):
                d += 1
            elif ch in '([<':
                d -= 1
            elif ch == ';' and d == 0:
                return '[%s ; %s]' % (init(body[:i]), body[i + 1:])
        raise Odd('type %s' % ty[:60])
    if re.match(r'(:: )?((std|core) :: option :: )?Option <', ty):
        return 'None'
    if re.match(r"& ('\w+ |'static )?str$", ty):
        return '""'
    if re.match(r'(u|i)(8|16|32|64|size)$', ty):
        return '0'
    if ty.startswith('fn'):
        return '{ fn vp_f(_ : %s) { loop { } } vp_f }' % ty[ty.index('(') + 1:ty.rindex(')')]
    raise Odd('type %s' % ty[:60])
