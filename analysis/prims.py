"""Primitives: std collections, strings, options, quote/proc_macro2/syn entry points."""
from terms import *
from interp import SEQITER, CLOSURE, HAS, INTS, setelem, FnRef

P = {}


def prim(*names):
    def d(f):
        for n in names:
            P[n] = f
        return f
    return d


def lookup(path):
    return P.get(path) or wild(path)


def wild(path):
    return None


def SIT(seq, pos=None):
    return AGG(SEQITER, '', (seq, pos or INT(0)))


CONT = ('alloc::collections::btree::set::BTreeSet', 'alloc::collections::btree::map::BTreeMap',
        'std::collections::hash::set::HashSet', 'std::collections::hash::map::HashMap')
SETS = (CONT[0], CONT[2])
MAPS = (CONT[1], CONT[3])
VEC = 'alloc::vec::Vec'


def kindof(I, v):
    """'set' | 'map' | None for container-like terms."""
    if v.op == 'new':
        return v.a[0]
    t = I.typeof(v)
    if t is not None and t['k'] == 'adt':
        if t['path'] in SETS:
            return 'set'
        if t['path'] in MAPS:
            return 'map'
        if t['path'] == 'parse':
            return None
    return None


def ver(st, c):
    return st.ver.get(c, 0)


def bump(I, st, c, node):
    d = dict(st.ver)
    d[c] = node.id
    st.ver = d


def newc(I, c, kind):
    """A fresh, empty container (identified by its creation site; recreation is an event)."""
    t = mk('new', kind, c.site())
    n = I.emit(c.st, 'new', t)
    bump(I, c.st, t, n)
    I.fresh.add(n.id)
    I.newin.setdefault(t, set()).update(I.loopstack)
    return t


def setseq(I, st, c):
    return mk('setseq', c, ver(st, c))


def tyname(t):
    return t['path'] if t is not None and t['k'] == 'adt' else (t['s'] if t is not None else None)


def peel(c, t):
    while t is not None and t['k'] in ('ref', 'ptr'):
        t = c.types[t['t']]
    return t


# ---- identity-like ---------------------------------------------------------------------------
@prim('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'core::ops::deref::Deref::deref',
      'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'alloc::boxed::Box::new',
      'core::option::Option::copied', 'core::option::Option::cloned', 'core::option::Option::as_ref',
      'core::option::Option::as_deref', 'core::result::Result::as_ref',
      'alloc::string::String::as_str', 'core::hint::must_use', 'alloc::vec::Vec::as_slice',
      'alloc::slice::to_vec', 'alloc::vec::Vec::into_boxed_slice', 'alloc::slice::into_vec',
      'alloc::string::String::into_boxed_str', 'core::hint::black_box', 'alloc::rc::Rc::new',
      'core::clone::impls::clone', 'alloc::borrow::Cow::into_owned', 'alloc::rc::Rc::clone',
      'alloc::borrow::ToOwned::to_owned', 'core::iter::traits::iterator::Iterator::by_ref_val',
      'core::convert::identity', 'alloc::str::to_owned', 'alloc::slice::into_boxed_slice')
def p_ident(I, c):
    return c.ret(c.val(0))


@prim('core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut',
      'alloc::vec::Vec::as_mut_slice', 'core::iter::traits::iterator::Iterator::by_ref')
def p_identm(I, c):
    return c.ret(c.args[0])


@prim('core::convert::From::from', 'core::convert::Into::into')
def p_from(I, c):
    v = c.val(0)
    d = c.dty()
    if d is not None and tyname(d) == 'alloc::string::String' and v.op == 'char':
        return c.ret(STR(chr(v.a[0])))
    if d is not None and d['k'] == 'adt' and (d['path'] in CONT):
        return collect(I, c, SIT(v) if v.op != 'agg' else v, d, c.fr.body.crate)
    if d is not None and tyname(d) == OPTION and not (v.op == 'agg' and v.a[0] == OPTION):
        t = I.typeof(v)
        if t is None or tyname(t) != OPTION:
            return c.ret(SOME(v))
    return c.ret(v)


@prim('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def p_tryfrom(I, c):
    v = c.val(0)
    d = c.dty()
    t = None
    if d is not None and tyname(d) == RESULT:
        t = c.fr.body.crate.types[d['args'][0]]['s']
    if t not in INTS:
        t = '?'
    out = []
    if v.op == 'int' and t in INTS:
        bits = INTS[t]
        ok = (0 <= v.a[0] < 2 ** bits) if t[0] == 'u' else (-2 ** (bits - 1) <= v.a[0] < 2 ** (bits - 1))
        return c.ret(OK(v) if ok else ERR(mk('tryerr', v)))
    for s, b in I.fork(c.st, mk('fits', v, t)):
        out.append(('ret', s, OK(v) if b else ERR(mk('tryerr', v, t))))
    return out


@prim(*['core::num::checked_' + n for n in ('add', 'sub')])
def p_checked(I, c):
    a, b = c.val(0), c.val(1)
    d = c.dty()
    t = None
    if d is not None and tyname(d) == OPTION:
        t = c.fr.body.crate.types[d['args'][0]]['s']
    v = add(a, b) if c.path.endswith('add') else sub(a, b)
    if v.op == 'int' and t in INTS:
        bits = INTS[t]
        ok = (0 <= v.a[0] < 2 ** bits) if t[0] == 'u' else (-2 ** (bits - 1) <= v.a[0] < 2 ** (bits - 1))
        return c.ret(SOME(v) if ok else NONE)
    return [('ret', s, SOME(v) if b else NONE) for s, b in I.fork(c.st, mk('fits', v, t or '?'))]


# ---- equality and ordering ----------------------------------------------------------------------
def intish(I, v):
    if v.op in ('int', 'lin', 'iv', 'len'):
        return True
    t = I.typeof(v)
    if t is None:
        return False
    if t['s'] in INTS:
        return True
    return t['k'] == 'adt' and I.transparent(t['path'])


def eqfork(I, st, a, b):
    """[(state, bool)]"""
    while a.op == 'ptr':
        a = I.load(st, a.a[0], a.a[1])
    while b.op == 'ptr':
        b = I.load(st, b.a[0], b.a[1])
    if a is b:
        return [(st, True)]
    if a.op == 'bool' or b.op == 'bool':
        x, y = (a, b) if b.op == 'bool' else (b, a)
        return [(s, v == y.a[0]) for s, v in I.fork(st, x)]
    if a.op == 'agg' and b.op == 'agg' and (a.a[0], a.a[1]) != (b.a[0], b.a[1]):
        return [(st, False)]
    if a.op == 'agg' and b.op == 'agg':
        outs = [(st, True)]
        for x, y in zip(a.a[2], b.a[2]):
            nxt = []
            for s, v in outs:
                nxt += [(s, False)] if not v else eqfork(I, s, x, y)
            outs = nxt
        return outs
    if a.op == 'agg' or b.op == 'agg':
        x, y = (a, b) if b.op == 'agg' else (b, a)
        adt = y.a[0]
        ad = I.p.adts.get(adt)
        if ad is not None and ad['enum']:
            out = []
            for s, n in I.split(st, x, adt) if len(ad['variants']) <= 12 else [(st, None)]:
                if n != y.a[1]:
                    out.append((s, False))
                    continue
                outs = [(s, True)]
                vd = I.p.variant(adt, n)
                for k, fv in enumerate(y.a[2]):
                    nxt = []
                    for s2, v in outs:
                        nxt += [(s2, False)] if not v else eqfork(I, s2, I.field(x, adt, n, k, vd['fields'][k]['name']), fv)
                    outs = nxt
                out += outs
            return out
        outs = [(st, True)]
        vd = ad['variants'][0] if ad else None
        for k, fv in enumerate(y.a[2]):
            nxt = []
            for s2, v in outs:
                nxt += [(s2, False)] if not v else eqfork(I, s2, I.field(x, adt if ad else None, '', k, vd['fields'][k]['name'] if vd else None), fv)
            outs = nxt
        return outs
    if a.op == 'str' and b.op == 'str':
        return [(st, a is b)]
    if intish(I, a) or intish(I, b):
        return I.fork(st, eq0(sub(a, b)))
    x, y = sorted((a, b), key=lambda t: t.id)
    return I.fork(st, mk('eq', x, y))


@prim('core::cmp::PartialEq::eq')
def p_eq(I, c):
    return [('ret', s, BOOL(v)) for s, v in eqfork(I, c.st, c.args[0], c.args[1])]


@prim('core::cmp::PartialEq::ne')
def p_ne(I, c):
    return [('ret', s, BOOL(not v)) for s, v in eqfork(I, c.st, c.args[0], c.args[1])]


@prim('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def p_ord(I, c):
    a, b = c.val(0), c.val(1)
    op = c.path.split('::')[-1]
    d = sub(a, b)
    v = {'gt': lambda: gt0(d), 'lt': lambda: gt0(mul(d, -1)), 'ge': lambda: gt0(add(d, INT(1))), 'le': lambda: gt0(add(mul(d, -1), INT(1)))}[op]()
    return c.ret(v)


@prim('core::ops::arith::Add::add')
def p_add(I, c):
    a, b = c.val(0), c.val(1)
    if isstr(I, a):
        return c.ret(CAT([a, b]))
    return c.ret(add(a, b))


@prim('core::ops::arith::AddAssign::add_assign')
def p_addassign(I, c):
    a, b = c.val(0), c.val(1)
    p = c.args[0]
    I.store(c.st, p.a[0], p.a[1], CAT([a, b]) if isstr(I, a) else add(a, b))
    return c.ret(UNIT)


def isstr(I, v):
    if v.op in ('str', 'cat', 'disp', 'strof'):
        return True
    t = I.typeof(v)
    return t is not None and (t['s'] == 'str' or t.get('path') == 'alloc::string::String')


# ---- Default / constructors -----------------------------------------------------------------------
def default_of(I, c, t, crate):
    if t is None:
        return None
    if t['s'] in INTS:
        return INT(0)
    if t['s'] == 'bool':
        return FALSE
    if t['k'] == 'tuple':
        fs = [default_of(I, c, crate.types[x], crate) for x in t['args']]
        return None if any(f is None for f in fs) else AGG('tuple', '', fs)
    if t['k'] == 'adt':
        p = t['path']
        if p in SETS:
            return newc(I, c, 'set')
        if p in MAPS:
            return newc(I, c, 'map')
        if p == VEC or p.endswith('VecDeque') or p.endswith('TokenStream'):
            return EMPTY
        if p == 'alloc::string::String':
            return STR('')
        if p == OPTION:
            return NONE
    return None


@prim('core::default::Default::default')
def p_default(I, c):
    t = c.dty()
    crate = c.fr.body.crate
    v = default_of(I, c, t, crate)
    if v is None and c.ty(0) is not None:
        v = default_of(I, c, c.ty(0), c.crate)
    if v is None:
        t = c.ty(0) or t
        if t is not None and t['k'] == 'adt':
            k = I.p.impls.get(('core::default::Default', t['path'], 'default'))
            if k:
                return I.exec_body(c.st, c.fr, c.bb, I.p.bodies[k], [])
        return None
    return c.ret(v)


@prim('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::collections::vec_deque::VecDeque::new',
      'alloc::collections::vec_deque::VecDeque::with_capacity', 'proc_macro2::TokenStream::new')
def p_vecnew(I, c):
    return c.ret(EMPTY)


@prim('alloc::string::String::new', 'alloc::string::String::with_capacity')
def p_strnew(I, c):
    return c.ret(STR(''))


@prim('std::collections::hash::set::HashSet::new', 'std::collections::hash::set::HashSet::with_capacity',
      'std::collections::hash::set::HashSet::with_hasher', 'std::collections::hash::set::HashSet::with_capacity_and_hasher',
      'alloc::collections::btree::set::BTreeSet::new')
def p_setnew(I, c):
    note_hasher(I, c)
    return c.ret(newc(I, c, 'set'))


@prim('std::collections::hash::map::HashMap::new', 'std::collections::hash::map::HashMap::with_capacity',
      'std::collections::hash::map::HashMap::with_hasher', 'std::collections::hash::map::HashMap::with_capacity_and_hasher',
      'alloc::collections::btree::map::BTreeMap::new')
def p_mapnew(I, c):
    note_hasher(I, c)
    return c.ret(newc(I, c, 'map'))


def note_hasher(I, c):
    pass


@prim('alloc::boxed::Box::new_uninit')
def p_boxuninit(I, c):
    loc = ('box',) + c.site()
    c.st.mem[loc] = UNINIT
    return c.ret(mk('ptr', loc, ()))


@prim('alloc::boxed::box_assume_init_into_vec_unsafe')
def p_boxvec(I, c):
    a = c.args[0]
    v = c.val(0)
    if a.op == 'ptr':
        c.st.mem.pop(a.a[0], None)
    # MaybeUninit/ManuallyDrop wrappers around the array
    n = 0
    while v.op == 'agg' and len(v.a[2]) >= 1 and v.a[0] not in ('array',) and n < 4:
        fs = [x for x in v.a[2] if x.op != 'uninit']
        if not fs:
            break
        v = fs[-1]
        n += 1
    return c.ret(v)


@prim('alloc::vec::from_elem')
def p_fromelem(I, c):
    v, n = c.val(0), c.val(1)
    if n.op == 'int' and n.a[0] <= 4:
        return c.ret(SEQ(tuple(('e', v) for _ in range(n.a[0]))))
    return c.ret(mk('fill', v, n))


# ---- containers -----------------------------------------------------------------------------------
_H = ('std::collections::hash::map::HashMap::', 'alloc::collections::btree::map::BTreeMap::')
_S = ('std::collections::hash::set::HashSet::', 'alloc::collections::btree::set::BTreeSet::')


def m(*ns):
    return [h + n for h in _H for n in ns]


def s_(*ns):
    return [h + n for h in _S for n in ns]


@prim(*m('insert'))
def p_mapins(I, c):
    mp, k, v = c.val(0), I.snapshot(c.st, c.args[1]), I.snapshot(c.st, c.args[2])
    vr = ver(c.st, mp)
    n = I.emit(c.st, 'ins', mp, k, v, vr, 'map')
    bump(I, c.st, mp, n)
    I.setfact(c.st, mk('has', mp, k, n.id), True)
    return c.ret(mk('get', mp, k, vr))


@prim(*s_('insert'))
def p_setins(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    vr = ver(c.st, mp)
    n = I.emit(c.st, 'ins', mp, k, None, vr, 'set')
    bump(I, c.st, mp, n)
    I.setfact(c.st, mk('has', mp, k, n.id), True)
    return c.ret(NOT(mk('has', mp, k, vr)))


@prim(*s_('replace'))
def p_setrepl(I, c):
    p_setins(I, c)
    return c.ret(mk('opq', 'set_replace', (), ()))


@prim(*m('contains_key'))
@prim(*s_('contains'))
def p_has(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    if own_entry(c.st, mp, k) is not None:
        return c.ret(TRUE)
    return c.ret(mk('has', mp, k, ver(c.st, mp)))


def own_entry(st, mp, k):
    """The entry (key, value) of the map, or the element of the set, that k is the key of: k comes from going over it."""
    e = k.a[0] if k.op == 'field' and k.a[1:] == ('tuple', '', '0') else k
    if e.op == 'elem':
        s = unperm(e.a[0])
        if s.op == 'setseq' and s.a[0] is mp and s.a[1] == ver(st, mp):
            return e
    return None


@prim(*m('get'))
def p_get(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    e = own_entry(c.st, mp, k)
    if e is not None and e is not k and mp.op != 'new':
        return c.ret(SOME(mk('field', e, 'tuple', '', '1')))
    if mp.op == 'new':
        # a container kept in a map built here is known by its slot
        d = c.dty()
        crate = c.fr.body.crate
        while d is not None and (d['k'] == 'ref' or tyname(d) == OPTION):
            d = crate.types[d['t'] if d['k'] == 'ref' else d['args'][0]]
        if d is not None and tyname(d) in CONT:
            sl = mk('slot', mp, k)
            I.typ.setdefault(sl, (d, crate))
            return [('ret', s, SOME(sl) if b else NONE) for s, b in I.fork(c.st, mk('has', mp, k, ver(c.st, mp)))]
    return c.ret(mk('get', mp, k, ver(c.st, mp)))


@prim(*s_('get'))
def p_sget(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    return [('ret', s, SOME(k) if b else NONE) for s, b in I.fork(c.st, mk('has', mp, k, ver(c.st, mp)))]


@prim(*m('get_mut'))
def p_getmut(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    return [('ret', s, SOME(slot(I, c, s, mp, k)) if b else NONE) for s, b in I.fork(c.st, mk('has', mp, k, ver(c.st, mp)))]


def slot(I, c, st, mp, k):
    t = I.typeof(mp)
    return mk('slot', mp, k)


@prim(*m('entry'))
def p_entry(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    return c.ret(AGG('vp::Entry', '', (mp, k, ver(c.st, mp))))


_OE = ('std::collections::hash::map::OccupiedEntry::', 'alloc::collections::btree::map::entry::OccupiedEntry::')
_VE = ('std::collections::hash::map::VacantEntry::', 'alloc::collections::btree::map::entry::VacantEntry::')


def slotptr(I, c, mp, k, v):
    if v is not None and v.op in ('newmap', 'slot'):
        return v
    loc = ('slot', mp, k)
    c.st.mem[loc] = v
    return mk('ptr', loc, ())


@prim(*[e + n for e in _OE for n in ('get', 'get_mut', 'into_mut')])
def p_occget(I, c):
    mp, k, vr = c.val(0).a[2]
    v = mk('field', mk('get', mp, k, vr), OPTION, 'Some', '0')
    if c.path.endswith('::get'):
        return c.ret(v)
    return c.ret(slotptr(I, c, mp, k, v))


@prim(*[e + n for e in _OE for n in ('key',)])
@prim(*[e + n for e in _VE for n in ('key', 'into_key')])
@prim(*[e + 'key' for e in ('std::collections::hash::map::Entry::', 'alloc::collections::btree::map::entry::Entry::')])
def p_entkey(I, c):
    return c.ret(c.val(0).a[2][1])


@prim(*[e + 'insert' for e in _OE])
def p_occins(I, c):
    mp, k, vr = c.val(0).a[2]
    n = I.emit(c.st, 'ins', mp, k, I.snapshot(c.st, c.args[1]), vr, 'map')
    bump(I, c.st, mp, n)
    I.setfact(c.st, mk('has', mp, k, n.id), True)
    return c.ret(mk('field', mk('get', mp, k, vr), OPTION, 'Some', '0'))


@prim(*[e + n for e in _OE for n in ('remove', 'remove_entry')])
def p_occrem(I, c):
    mp, k, vr = c.val(0).a[2]
    n = I.emit(c.st, 'rem', mp, k, vr)
    bump(I, c.st, mp, n)
    return c.ret(mk('field', mk('get', mp, k, vr), OPTION, 'Some', '0'))


@prim(*[e + n for e in _VE for n in ('insert', 'insert_entry')])
def p_vacins(I, c):
    mp, k, vr = c.val(0).a[2]
    v = I.snapshot(c.st, c.args[1])
    n = I.emit(c.st, 'ins', mp, k, v, vr, 'map')
    bump(I, c.st, mp, n)
    I.setfact(c.st, mk('has', mp, k, n.id), True)
    return c.ret(slotptr(I, c, mp, k, c.args[1]))


_E = ('std::collections::hash::map::Entry::', 'alloc::collections::btree::map::entry::Entry::')


@prim(*[e + n for e in _E for n in ('or_default', 'or_insert', 'or_insert_with')])
def p_ordefault(I, c):
    e = c.val(0)
    mp, k = e.a[2][:2]
    d = c.dty()
    crate = c.fr.body.crate
    while d is not None and d['k'] == 'ref':
        d = crate.types[d['t']]
    sl = mk('slot', mp, k)
    if d is not None:
        I.typ.setdefault(sl, (d, crate))
    if (d is not None and tyname(d) in CONT):
        n = I.emit(c.st, 'slot', mp, k)
        bump(I, c.st, mp, n)
        I.setfact(c.st, mk('has', mp, k, n.id), True)
        return c.ret(sl)
    vr = ver(c.st, mp)
    out = []
    for s, b in I.fork(c.st, mk('has', mp, k, vr)):
        loc = ('slot', mp, k)
        if b:
            s.mem[loc] = mk('field', mk('get', mp, k, vr), OPTION, 'Some', '0')
            out.append(('ret', s, mk('ptr', loc, ())))
        else:
            if c.path.endswith('or_insert_with'):
                r = I.call(s, c.fr, c.bb, None, c.args[1], [])
            elif c.path.endswith('or_insert'):
                r = [('ret', s, c.args[1])]
            else:
                v = default_of(I, c, d, crate)
                r = [('ret', s, v if v is not None else mk('default', mp))]
            for _, s2, v in r:
                n = I.emit(s2, 'ins', mp, k, v, vr, 'map')
                bump(I, s2, mp, n)
                s2.mem[loc] = v
                out.append(('ret', s2, mk('ptr', loc, ())))
    return out


@prim(*m('remove', 'remove_entry'))
@prim(*s_('remove', 'take'))
def p_rem(I, c):
    mp, k = c.val(0), I.snapshot(c.st, c.args[1])
    vr = ver(c.st, mp)
    n = I.emit(c.st, 'rem', mp, k, vr)
    bump(I, c.st, mp, n)
    if c.path.startswith(_S):
        return c.ret(mk('has', mp, k, vr))
    return c.ret(mk('get', mp, k, vr))


@prim(*m('clear', 'retain'))
@prim(*s_('clear', 'retain'))
def p_cclear(I, c):
    mp = c.val(0)
    n = I.emit(c.st, 'rem', mp, mk('all'), ver(c.st, mp))
    bump(I, c.st, mp, n)
    return c.ret(UNIT)


@prim(*m('is_empty'))
@prim(*s_('is_empty'))
def p_cempty(I, c):
    return c.ret(NOT(gt0(length(setseq(I, c.st, c.val(0))))))


@prim(*m('len'))
@prim(*s_('len'))
def p_clen(I, c):
    return c.ret(length(setseq(I, c.st, c.val(0))))


@prim(*m('iter', 'into_iter', 'drain', 'iter_mut'))
@prim(*s_('iter', 'into_iter', 'drain'))
def p_citer(I, c):
    mp = c.val(0)
    r = SIT(setseq(I, c.st, mp))
    if c.path.endswith('drain'):
        n = I.emit(c.st, 'rem', mp, mk('all'), ver(c.st, mp))
        bump(I, c.st, mp, n)
    return c.ret(r)


@prim(*m('keys', 'into_keys', 'values', 'into_values', 'values_mut'))
def p_ckeys(I, c):
    return c.ret(SIT(mk('mapproj', setseq(I, c.st, c.val(0)), INT(0 if 'keys' in c.path.split('::')[-1] else 1))))


@prim(*s_('first', 'last', 'pop_first', 'pop_last'))
@prim(*m('pop_first', 'first_key_value', 'last_key_value', 'pop_last'))
def p_cfirst(I, c):
    mp = c.val(0)
    nm = c.path.split('::')[-1]
    q = setseq(I, c.st, mp)
    out = []
    for s, b in I.fork(c.st, gt0(length(q))):
        if b:
            x = mk('elem', q, INT(0) if 'first' in nm else sub(length(q), INT(1)))
            if nm.startswith('pop'):
                n = I.emit(s, 'rem', mp, x, ver(s, mp))
                bump(I, s, mp, n)
            out.append(('ret', s, SOME(x)))
        else:
            out.append(('ret', s, NONE))
    return out


@prim(*s_('union', 'difference', 'intersection', 'is_subset', 'is_superset'))
def p_setops(I, c):
    a, b = setseq(I, c.st, c.val(0)), setseq(I, c.st, c.val(1))
    nm = c.path.split('::')[-1]
    if nm == 'union':
        return c.ret(SIT(SEQ((('s', a), ('s', b)))))
    r = mk('setop', nm, a, b)
    return c.ret(r if nm.startswith('is') else SIT(r))


# ---- sequences ------------------------------------------------------------------------------------
def seqval(I, st, v):
    """A value used as a sequence."""
    k = kindof(I, v)
    if k:
        return setseq(I, st, v)
    return v


@prim('alloc::vec::Vec::push', 'alloc::collections::vec_deque::VecDeque::push_back')
def p_push(I, c):
    p = c.args[0]
    v = I.snapshot(c.st, c.args[1]) if not (c.args[1].op == 'agg' and c.args[1].a[0] == CLOSURE) else c.args[1]
    if p.op != 'ptr':
        I.emit(c.st, 'push', p, v, None)
        return c.ret(UNIT)
    old = I.load(c.st, p.a[0], p.a[1])
    I.emit(c.st, 'push', p, v, old)
    I.store(c.st, p.a[0], p.a[1], append(old, v))
    return c.ret(UNIT)


@prim('alloc::collections::vec_deque::VecDeque::push_front', 'alloc::vec::Vec::insert')
def p_pushfront(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    if c.path.endswith('insert'):
        i, v = c.args[1], I.snapshot(c.st, c.args[2])
        new = SEQ((('e', v),) + parts(old)) if i is INT(0) else mk('insertat', old, i, v)
    else:
        v = I.snapshot(c.st, c.args[1])
        new = SEQ((('e', v),) + parts(old))
    I.emit(c.st, 'push', p, v, old, 'front')
    I.store(c.st, p.a[0], p.a[1], new)
    return c.ret(UNIT)


def droplast(s):
    if s.op == 'seq' and s.a[0] and s.a[0][-1][0] == 'e':
        return mk('seq', s.a[0][:-1]) if len(s.a[0]) != 2 or s.a[0][0][0] == 'e' else s.a[0][0][1]
    if s.op == 'slice' and s.a[2] is not None:
        return slice_(s.a[0], s.a[1], sub(s.a[2], INT(1)))
    return slice_(s, INT(0), sub(length(s), INT(1)))


@prim('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def p_pop(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    if old.op == 'seq' and old.a[0] and old.a[0][-1][0] == 'e':
        v = old.a[0][-1][1]
        I.emit(c.st, 'pop', p, v, old)
        I.store(c.st, p.a[0], p.a[1], droplast(old))
        return c.ret(SOME(v))
    out = []
    for s, b in I.fork(c.st, gt0(length(old))):
        if b:
            v = I.elem(s, old, sub(length(old), INT(1)))
            I.emit(s, 'pop', p, v, old)
            I.store(s, p.a[0], p.a[1], droplast(old))
            out.append(('ret', s, SOME(v)))
        else:
            out.append(('ret', s, NONE))
    return out


@prim('alloc::collections::vec_deque::VecDeque::pop_front')
def p_popfront(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    out = []
    for s, b in I.fork(c.st, gt0(length(old))):
        if b:
            v = I.elem(s, old, INT(0))
            I.emit(s, 'pop', p, v, old)
            I.store(s, p.a[0], p.a[1], slice_(old, INT(1)))
            out.append(('ret', s, SOME(v)))
        else:
            out.append(('ret', s, NONE))
    return out


@prim('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def p_vremove(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    i = c.val(1)
    looked(I, c.st, old, i)
    v = I.elem(c.st, old, i)
    I.emit(c.st, 'pop', p, v, old)
    I.store(c.st, p.a[0], p.a[1], slice_(old, INT(1)) if i is INT(0) else mk('removeat', old, i))
    return c.ret(v)


@prim('alloc::vec::Vec::clear', 'alloc::string::String::clear', 'alloc::collections::vec_deque::VecDeque::clear')
def p_vclear(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    I.emit(c.st, 'clear', p, old)
    I.store(c.st, p.a[0], p.a[1], STR('') if 'String' in c.path else EMPTY)
    return c.ret(UNIT)


@prim('alloc::vec::Vec::truncate', 'alloc::vec::Vec::resize')
def p_vtrunc(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    I.emit(c.st, 'trunc', p, old, c.val(1))
    I.store(c.st, p.a[0], p.a[1], slice_(old, INT(0), c.val(1)) if c.path.endswith('truncate') else mk('resize', old, c.val(1), c.val(2)))
    return c.ret(UNIT)


def sorted_already(I, c, s, f, own=False):
    """The sort key of element k is k itself (own: is the element itself)."""
    k = mk('param', 'k')
    x = k if own else I.elem(c.st, s, k)
    while f.op == 'ptr':
        f = I.load(c.st, f.a[0], f.a[1])
    if x.op == 'ptr' or not (f.op == 'agg' and f.a[0] == CLOSURE):
        return False
    st = c.st.copy()
    n = len(I.nodes) if hasattr(I, 'nodes') else None
    loc = ('key', c.fr.id, c.bb)
    st.mem[loc] = x
    st.mem[('keyf', c.fr.id, c.bb)] = f
    outs = I.call_closure(st, c.fr, c.bb, f, mk('ptr', ('keyf', c.fr.id, c.bb), ()), [mk('ptr', loc, ())])
    return len(outs) == 1 and outs[0][0] == 'ret' and outs[0][2] is k


@prim('core::slice::sort', 'alloc::slice::sort', 'alloc::slice::sort_by', 'alloc::slice::sort_by_key', 'core::slice::sort_unstable',
      'alloc::vec::Vec::dedup', 'alloc::vec::Vec::dedup_by_key', 'core::slice::reverse', 'core::slice::sort_unstable_by', 'core::slice::sort_unstable_by_key',
      'core::slice::swap', 'core::slice::rotate_left', 'core::slice::rotate_right')
def p_perm(I, c):
    p = c.args[0]
    if p.op != 'ptr':
        return None
    old = I.load(c.st, p.a[0], p.a[1])
    nm = c.path.split('::')[-1]
    if nm == 'dedup_by_key' and sorted_already(I, c, old, c.args[1], True):
        nm = 'dedup'
    if 'by_key' in nm and 'dedup' not in nm and sorted_already(I, c, old, c.args[1]):
        return c.ret(UNIT)
    I.store(c.st, p.a[0], p.a[1], rev(old) if nm == 'reverse' else perm(nm, old))
    return c.ret(UNIT)


@prim('alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::string::String::reserve',
      'std::collections::hash::set::HashSet::reserve', 'std::collections::hash::map::HashMap::reserve',
      'core::mem::drop', 'core::mem::forget')
def p_nop(I, c):
    return c.ret(UNIT)


@prim('alloc::vec::Vec::len', 'core::slice::len', 'alloc::string::String::len', 'core::str::len',
      'alloc::collections::vec_deque::VecDeque::len', 'core::iter::traits::exact_size::ExactSizeIterator::len')
def p_len(I, c):
    v = c.val(0)
    if v.op == 'agg' and v.a[0] == SEQITER:
        return c.ret(sub(length(v.a[2][0]), v.a[2][1]))
    if v.op == 'agg':
        return None
    return c.ret(length(seqval(I, c.st, v)))


@prim('alloc::vec::Vec::is_empty', 'core::slice::is_empty', 'alloc::string::String::is_empty', 'core::str::is_empty',
      'alloc::collections::vec_deque::VecDeque::is_empty', 'proc_macro2::TokenStream::is_empty',
      'syn::punctuated::Punctuated::is_empty')
def p_empty(I, c):
    v = c.val(0)
    if v.op == 'str':
        return c.ret(BOOL(v.a[0] == ''))
    return c.ret(NOT(gt0(length(seqval(I, c.st, v)))))


def rng(I, v):
    """(from, to|None, inclusive) of a range value, or None."""
    if v.op == 'agg':
        n = v.a[0].split('::')[-1]
        if n == 'Range':
            return v.a[2][0], v.a[2][1]
        if n == 'RangeFrom':
            return v.a[2][0], None
        if n == 'RangeTo':
            return INT(0), v.a[2][0]
        if n == 'RangeFull':
            return INT(0), None
        if n == 'RangeInclusive':
            return v.a[2][0], add(v.a[2][1], INT(1))
        if n == 'RangeToInclusive':
            return INT(0), add(v.a[2][0], INT(1))
    return None


@prim('core::ops::range::RangeInclusive::new')
def p_rangeincl(I, c):
    return c.ret(AGG('core::ops::range::Range', '', (c.val(0), add(c.val(1), INT(1)))))


def index(I, st, base, i):
    r = rng(I, i)
    if r is not None:
        return slice_(base, r[0], r[1])
    return I.elem(st, base, i)


@prim('core::ops::index::Index::index')
def p_index(I, c):
    b, i = c.val(0), c.val(1)
    if kindof(I, b) == 'map' or tyname(peel(c.crate, c.ty(0))) in MAPS:
        e = own_entry(c.st, b, i)
        if e is not None and e is not i:
            return c.ret(mk('field', e, 'tuple', '', '1'))
        if I.bounds:
            I.emit(c.st, 'key', b, i, ver(c.st, b))
        g = mk('get', b, i, ver(c.st, b))
        return c.ret(mk('field', g, OPTION, 'Some', '0'))
    looked(I, c.st, b, i)
    return c.ret(index(I, c.st, b, i))


def looked(I, st, b, i):
    if I.bounds:
        r = rng(I, i)
        I.emit(st, 'idx', b, i if r is None else r[1] if r[1] is not None else r[0], length(b), r)


@prim('core::ops::index::IndexMut::index_mut')
def p_indexm(I, c):
    p, i = c.args[0], c.val(1)
    looked(I, c.st, c.val(0), i)
    if p.op == 'ptr' and rng(I, i) is None:
        return c.ret(mk('ptr', p.a[0], p.a[1] + (('i', i),)))
    return c.ret(index(I, c.st, c.val(0), i))


@prim('core::slice::get', 'alloc::collections::vec_deque::VecDeque::get')
def p_sliceget(I, c):
    b, i = c.val(0), c.val(1)
    r = rng(I, i)
    out = []
    if r is not None:
        f, t = r
        cond = gt0(add(sub(length(b), f), INT(1)))
        for s, ok in I.fork(c.st, cond):
            out.append(('ret', s, SOME(slice_(b, f, t)) if ok else NONE))
        return out
    for s, ok in I.fork(c.st, gt0(sub(length(b), i))):
        out.append(('ret', s, SOME(I.elem(s, b, i)) if ok else NONE))
    return out


@prim('core::slice::get_mut', 'core::slice::last_mut', 'core::slice::first_mut', 'alloc::collections::vec_deque::VecDeque::back_mut')
def p_slicegetm(I, c):
    p = c.args[0]
    b = c.val(0)
    n = c.path.split('::')[-1]
    i = c.val(1) if n == 'get_mut' else INT(0) if n == 'first_mut' else sub(length(b), INT(1))
    out = []
    for s, ok in I.fork(c.st, gt0(sub(length(b), i)) if n == 'get_mut' else gt0(length(b))):
        out.append(('ret', s, SOME(mk('ptr', p.a[0], p.a[1] + (('i', i),))) if ok else NONE))
    return out


@prim('core::slice::get_unchecked')
def p_sliceunch(I, c):
    return c.ret(I.elem(c.st, c.val(0), c.val(1)))


@prim('core::slice::first', 'core::slice::last', 'alloc::collections::vec_deque::VecDeque::front', 'alloc::collections::vec_deque::VecDeque::back')
def p_first(I, c):
    b = c.val(0)
    last = c.path.endswith(('last', 'back'))
    if b.op == 'seq' and b.a[0]:
        q = b.a[0][-1] if last else b.a[0][0]
        if q[0] == 'e':
            return c.ret(SOME(q[1]))
    out = []
    for s, ok in I.fork(c.st, gt0(length(b))):
        i = sub(length(b), INT(1)) if last else INT(0)
        out.append(('ret', s, SOME(I.elem(s, b, i)) if ok else NONE))
    return out


@prim('core::slice::split_first', 'core::slice::split_last')
def p_splitfirst(I, c):
    b = c.val(0)
    out = []
    for s, ok in I.fork(c.st, gt0(length(b))):
        if not ok:
            out.append(('ret', s, NONE))
        elif c.path.endswith('first'):
            out.append(('ret', s, SOME(TUP(I.elem(s, b, INT(0)), slice_(b, INT(1))))))
        else:
            n = sub(length(b), INT(1))
            out.append(('ret', s, SOME(TUP(I.elem(s, b, n), slice_(b, INT(0), n)))))
    return out


@prim('core::slice::split_at')
def p_splitat(I, c):
    b, n = c.val(0), c.val(1)
    if I.bounds:
        I.emit(c.st, 'idx', b, n, add(length(b), INT(1)), None)
    return c.ret(TUP(slice_(b, INT(0), n), slice_(b, n)))


@prim('core::slice::contains')
def p_scontains(I, c):
    b, x = c.val(0), I.snapshot(c.st, c.args[1])
    return c.ret(mk('in', x, b))


@prim('core::slice::iter', 'alloc::vec::Vec::iter', 'alloc::collections::vec_deque::VecDeque::iter')
def p_iter(I, c):
    return c.ret(SIT(c.val(0)))


@prim('core::slice::iter_mut', 'alloc::collections::vec_deque::VecDeque::iter_mut')
def p_itermut(I, c):
    p = c.args[0]
    if p.op == 'ptr':
        return c.ret(SIT(mk('mutseq', p.a[0], p.a[1], I.load(c.st, p.a[0], p.a[1]))))
    return c.ret(SIT(p))


@prim('alloc::vec::Vec::drain')
def p_drain(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    r = rng(I, c.val(1)) or (INT(0), None)
    I.emit(c.st, 'clear', p, old)
    if r[0] is INT(0) and r[1] is None:
        I.store(c.st, p.a[0], p.a[1], EMPTY)
    else:
        I.store(c.st, p.a[0], p.a[1], mk('drained', old, r[0], r[1]))
    return c.ret(SIT(slice_(old, r[0], r[1])))


@prim('alloc::vec::Vec::split_off')
def p_splitoff(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    n = c.val(1)
    I.store(c.st, p.a[0], p.a[1], slice_(old, INT(0), n))
    return c.ret(slice_(old, n))


@prim('alloc::vec::Vec::append')
def p_vappend(I, c):
    p, q = c.args[0], c.args[1]
    old = I.load(c.st, p.a[0], p.a[1])
    o2 = I.load(c.st, q.a[0], q.a[1])
    I.emit(c.st, 'extend', p, o2, old)
    I.store(c.st, p.a[0], p.a[1], cat(old, o2))
    I.store(c.st, q.a[0], q.a[1], EMPTY)
    return c.ret(UNIT)


@prim('alloc::vec::Vec::extend_from_slice')
def p_extslice(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    x = c.val(1)
    I.emit(c.st, 'extend', p, x, old)
    I.store(c.st, p.a[0], p.a[1], cat(old, x))
    return c.ret(UNIT)


@prim('alloc::slice::concat')
def p_concat(I, c):
    v = c.val(0)
    return c.ret(mk('join', v, STR('')))


@prim('alloc::slice::join')
def p_join(I, c):
    return c.ret(mk('join', c.val(0), c.val(1)))


@prim('alloc::vec::Vec::retain')
def p_retain(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    b = I.p.bodies[I.p.vp['__vp_retain']]
    out = []
    for k, s, v in I.exec_body(c.st, c.fr, c.bb, b, [old, c.args[1]]):
        if k == 'ret':
            I.store(s, p.a[0], p.a[1], v)
            out.append(('ret', s, UNIT))
    return out


# ---- iteration ---------------------------------------------------------------------------------------
def is_iter(I, v):
    if v.op != 'agg':
        return False
    if v.a[0] == SEQITER:
        return True
    return ('core::iter::traits::iterator::Iterator', v.a[0], 'next') in I.p.impls


def as_iter(I, st, a, hint=None, crate=None):
    """into_iter of a value (a may be a pointer)."""
    v = a
    while v.op == 'ptr':
        v = I.load(st, v.a[0], v.a[1])
    if is_iter(I, v):
        return a if a.op == 'ptr' else v
    r = rng(I, v)
    if r is not None:
        if r[1] is None:
            return SIT(mk('range', r[0], mk('inf')))
        return SIT(mk('range', r[0], r[1]))
    if v.op == 'agg' and v.a[0] == OPTION:
        return AGG('vpm::OptIter', '', (v,))
    t = I.typeof(v)
    p = tyname(t)
    if p is None and hint is not None:
        p = tyname(hint)
    if v.op == 'new' or p in CONT:
        return SIT(setseq(I, st, v))
    if p == OPTION or v.op == 'get':
        return AGG('vpm::OptIter', '', (v,))
    if p == 'syn::punctuated::Punctuated':
        return SIT(v)
    if a.op == 'ptr' and (p == VEC or (t is not None and t['k'] == 'slice') or v.op in ('seq', 'seqrep', 'seqlv')):
        return SIT(mk('mutseq', a.a[0], a.a[1], v))
    if p == VEC or v.op in ('seq', 'seqrep', 'seqlv', 'slice', 'setseq', 'rev', 'fill', 'zeros') or (t is not None and t['k'] in ('slice', 'array')) or (p or '').endswith('VecDeque'):
        return SIT(v)
    return a if a.op == 'ptr' else v


@prim('core::iter::traits::collect::IntoIterator::into_iter')
def p_intoiter(I, c):
    t = peel(c.crate, c.ty(0))
    return c.ret(as_iter(I, c.st, c.args[0], t, c.crate))


@prim('core::iter::traits::iterator::Iterator::next')
def p_next(I, c):
    v = c.val(0)
    r = rng(I, v)
    if r is not None:
        p = c.args[0]
        lo, hi = r
        out = []
        for s, ok in (I.fork(c.st, gt0(sub(hi, lo))) if hi is not None else [(c.st, True)]):
            if ok:
                fs = list(v.a[2])
                fs[0] = add(lo, INT(1))
                I.store(s, p.a[0], p.a[1], AGG(v.a[0], '', fs))
                out.append(('ret', s, SOME(lo)))
            else:
                out.append(('ret', s, NONE))
        return out
    if v.op == 'agg' and v.a[0] == SEQITER:
        return seq_next(I, c, v)
    return None


def at_header(I, st):
    n = st.node
    return bool(I.loopstack) and n is not None and n.kind == 'hdr' and n.data[0] == I.loopstack[-1]


def regular(I, p):
    """A part of a sequence with one element per turn of a finished loop, the same in every turn."""
    if p[0] != 's' or p[1].op != 'seqrep' or p[1].a[1] is not EMPTY or p[1].a[3] is None or len(p[1].a[2]) != 1:
        return False
    fd, dl = p[1].a[2][0]
    if len(dl) != 1 or dl[0][0] != 'e':
        return False
    L = p[1].a[0]
    return all(q == L or q in I.loopstack for q in {y.a[0] for y in walk(dl[0][1]) if y.op in ('iv', 'lv', 'seqlv')}) and \
        not any(y.op in ('lv', 'seqlv') and y.a[0] == L for y in walk(dl[0][1])) and \
        not I.has_new(dl[0][1], L)


def selected(I, p):
    """The alternatives of a list whose loop adds at most one element a turn, on conditions that still hold."""
    if p[0] != 's' or p[1].op != 'seqrep' or p[1].a[1] is not EMPTY or p[1].a[3] is None or p[1].a[4] != 'full' or len(p[1].a[2]) < 2:
        return None
    L, alts = p[1].a[0], p[1].a[2]
    if any(len(dl) > 1 or dl and dl[0][0] != 'e' for _, dl in alts) or not any(not dl for _, dl in alts):
        return None
    iv = mk('iv', L)
    res = []
    for fd, dl in alts:
        keep = []
        for k, v in fd:
            if k.op == 'gt0' and iv in lin(k.a[0])[1]:
                continue
            if k.op not in ('discr', 'gt0', 'eq0', 'field', 'elem', 'has') or any(
                    y.op in ('opq', 'new', 'res', 'setseq', 'unk') or y.op in ('lv', 'seqlv') and y.a[0] == L for y in walk(k)):
                return None
            keep.append((k, v))
        for _, x in dl:
            if any(y.op in ('unk', 'new') or y.op in ('lv', 'seqlv') and y.a[0] == L for y in walk(x)) or I.has_new(x, L):
                return None
        for x in [k for k, v in keep] + [x for _, x in dl]:
            if any(y.op == 'iv' and y.a[0] != L and y.a[0] not in I.loopstack for y in walk(x)):
                return None
        res.append((tuple(sorted(keep, key=repr)), dl))
    return res


def variant(p, first):
    """A last element that is another variant of the enum than the elements before it."""
    if p[0] != 'e' or p[1].op != 'agg' or first[0] != 's' or first[1].op != 'seqrep' or first[1].a[2][0][1][0][0] != 'e':
        return False
    x = first[1].a[2][0][1][0][1]
    return x.op == 'agg' and x.a[0] == p[1].a[0] and x.a[1] != p[1].a[1]


def seq_next(I, c, v):
    p = c.args[0]
    while p.op == 'ptr':
        q = I.load(c.st, p.a[0], p.a[1])
        if q.op != 'ptr':
            break
        p = q
    seq, pos = v.a[2]
    base = seq
    n = length(base.a[2]) if base.op == 'mutseq' else length(base)
    if seq.op == 'range' and seq.a[1].op == 'inf':
        I.store(c.st, p.a[0], p.a[1], AGG(SEQITER, '', (seq, add(pos, INT(1)))))
        return c.ret(SOME(add(seq.a[0], pos)))
    out = []
    if seq.op == 'seq' and len(seq.a[0]) > 1 and p.op == 'ptr' and at_header(I, c.st) and \
            all(regular(I, q) or k == len(seq.a[0]) - 1 and variant(q, seq.a[0][0]) for k, q in enumerate(seq.a[0])) and \
            (pos is INT(0) or pos.op == 'iv'):
        # the parts one after the other, like a chain of iterators
        q = seq.a[0][0]
        for s, ok in I.fork(c.st, gt0(sub(length(q[1]), pos))):
            if ok:
                I.store(s, p.a[0], p.a[1], AGG(SEQITER, '', (seq, add(pos, INT(1)))))
                out.append(('ret', s, SOME(I.elem(s, q[1], pos))))
            else:
                rest = seq.a[0][1:]
                I.store(s, p.a[0], p.a[1], AGG(SEQITER, '', (SEQ(rest) if len(rest) > 1 or rest[0][0] == 'e' else rest[0][1], INT(0))))
                out.append(('phase', s, I.loopstack[-1]))
        return out
    if p.op == 'ptr' and at_header(I, c.st) and (pos is INT(0) or pos.op == 'iv') and len(parts(seq)) == 1:
        alts = selected(I, parts(seq)[0])
        if alts:
            # a list of the elements a loop has chosen: that loop again, with the others passed over
            L, trip = parts(seq)[0][1].a[0], parts(seq)[0][1].a[3]
            for s, ok in I.fork(c.st, gt0(sub(trip, pos))):
                if not ok:
                    out.append(('ret', s, NONE))
                    continue
                I.store(s, p.a[0], p.a[1], AGG(SEQITER, '', (seq, add(pos, INT(1)))))
                m = {mk('iv', L): pos}
                for fd, dl in alts:
                    z = [s.copy()]
                    for k, v in fd:
                        z = [r for y in z for r in I.fork_fact(y, subst(k, m), v)]
                    for y in z:
                        out.append(('ret', y, SOME(subst(dl[0][1], m))) if dl else ('retry', y, I.loopstack[-1]))
            return out
    for s, ok in I.fork(c.st, gt0(sub(n, pos))):
        if ok:
            if p.op == 'ptr':
                I.store(s, p.a[0], p.a[1], AGG(SEQITER, '', (seq, add(pos, INT(1)))))
            only = seq.a[0][0][1] if seq.op == 'seq' and len(seq.a[0]) == 1 and seq.a[0][0][0] == 'e' else None
            out.append(('ret', s, SOME(only if only is not None and only.op == 'agg' and only.a[1] else I.elem(s, seq, pos))))
        else:
            out.append(('ret', s, NONE))
    return out


@prim('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def p_nextback(I, c):
    v = c.val(0)
    p = c.args[0]
    if v.op == 'agg' and v.a[0] == SEQITER:
        seq, pos = v.a[2]
        n = length(seq)
        out = []
        for s, ok in I.fork(c.st, gt0(sub(n, pos))):
            if ok:
                x = I.elem(s, seq, sub(n, INT(1)))
                I.store(s, p.a[0], p.a[1], AGG(SEQITER, '', (slice_(seq, INT(0), sub(n, INT(1))), pos)))
                out.append(('ret', s, SOME(x)))
            else:
                out.append(('ret', s, NONE))
        return out
    return None


def plain(v):
    """The sequence a plain sequence iterator still yields, or None."""
    if v.op == 'agg' and v.a[0] == SEQITER:
        return slice_(v.a[2][0], v.a[2][1])
    return None


def torange(I, v):
    if v.op == 'agg' and v.a[0] != SEQITER:
        r = rng(I, v)
        if r is not None and r[1] is not None:
            return SIT(mk('range', r[0], r[1]))
    return v


@prim('core::iter::traits::iterator::Iterator::rev')
def p_rev(I, c):
    v = torange(I, c.val(0))
    s = plain(v)
    if s is not None:
        return c.ret(SIT(rev(s)))
    if v.op == 'agg' and v.a[0] in ('vpm::Map',):
        s = plain(torange(I, v.a[2][0]))
        if s is not None:
            return c.ret(AGG(v.a[0], '', (SIT(rev(s)),) + v.a[2][1:]))
    if v.op == 'agg' and v.a[0] == 'vpm::Enumerate':
        s = plain(torange(I, v.a[2][0]))
        if s is not None and v.a[2][1].op == 'int':
            n = length(s)
            return c.ret(AGG('vpm::Zip', '', (SIT(rev(mk('range', v.a[2][1], add(n, v.a[2][1])))), SIT(rev(s)))))
    return c.ret(SIT(rev(mk('iterseq', v))))


@prim('core::iter::traits::iterator::Iterator::skip')
def p_skip(I, c):
    v = torange(I, c.val(0))
    if v.op == 'agg' and v.a[0] == SEQITER:
        return c.ret(SIT(slice_(v.a[2][0], add(v.a[2][1], c.val(1)))))
    if v.op == 'agg' and v.a[0] == 'vpm::Enumerate' and plain(v.a[2][0]) is not None:
        s = plain(v.a[2][0])
        return c.ret(AGG('vpm::Enumerate', '', (SIT(slice_(s, c.val(1))), add(v.a[2][1], c.val(1)))))
    if v.op == 'agg' and v.a[0] == 'vpm::Map' and plain(v.a[2][0]) is not None:
        s = plain(v.a[2][0])
        return c.ret(AGG('vpm::Map', '', (SIT(slice_(s, c.val(1))),) + v.a[2][1:]))
    n = c.val(1)
    if n.op == 'int' and n.a[0] <= 3 and '__vp_skip1' in I.p.vp:
        outs = [('ret', c.st, v)]
        for _ in range(n.a[0]):
            nx = []
            for k, st, x in outs:
                if k != 'ret':
                    nx.append((k, st, x))
                    continue
                c.st = st
                nx += run_model(I, c, '__vp_skip1', [x])
            outs = nx
        return outs
    return c.ret(SIT(slice_(mk('iterseq', v), n)))


@prim('core::iter::traits::iterator::Iterator::take')
def p_take(I, c):
    v = torange(I, c.val(0))
    if v.op == 'agg' and v.a[0] == SEQITER:
        s = slice_(v.a[2][0], v.a[2][1])
        return c.ret(SIT(mk('slice', s, INT(0), c.val(1)) if s.op != 'slice' else slice_(s, INT(0), c.val(1))))
    return c.ret(AGG('vpm::Take', '', (v, c.val(1))))


@prim('core::iter::traits::iterator::Iterator::step_by')
def p_stepby(I, c):
    return c.ret(SIT(mk('stepby', mk('iterseq', c.val(0)), c.val(1))))


@prim('core::iter::traits::iterator::Iterator::enumerate')
def p_enum(I, c):
    return c.ret(AGG('vpm::Enumerate', '', (torange(I, c.args[0]), INT(0))))


@prim('core::iter::traits::iterator::Iterator::size_hint')
def p_sizehint(I, c):
    return c.ret(mk('opq', 'size_hint', (), (c.val(0),)))


def run_model(I, c, name, args):
    b = I.p.bodies[I.p.vp[name]]
    return I.exec_body(c.st, c.fr, c.bb, b, args)


def collect(I, c, it, t, crate):
    it = torange(I, it)
    p = tyname(t) if t is not None else None
    s = plain(it)
    if p == VEC or (p or '').endswith('VecDeque') or p is None or p == 'alloc::boxed::Box' or (p or '').endswith('Punctuated'):
        if s is not None:
            return c.ret(s)
        return run_model(I, c, '__vp_collect_vec', [it])
    if p in SETS:
        if s is not None and s.op == 'setseq':
            return c.ret(s.a[0])
        n = newc(I, c, 'set')
        if s is EMPTY:
            return c.ret(n)
        return [('ret', st, n) if k == 'ret' else (k, st, v) for k, st, v in run_model(I, c, '__vp_collect_set', [n, it])]
    if p in MAPS:
        if s is not None and s.op == 'setseq':
            return c.ret(s.a[0])
        n = newc(I, c, 'map')
        return [('ret', st, n) if k == 'ret' else (k, st, v) for k, st, v in run_model(I, c, '__vp_collect_map', [n, it])]
    if p == 'alloc::string::String':
        if s is not None:
            return c.ret(mk('join', s, STR('')))
        return [(k, st, (mk('join', v, STR('')) if k == 'ret' else v)) for k, st, v in run_model(I, c, '__vp_collect_vec', [it])]
    if p is not None and p.endswith('TokenStream'):
        return run_model(I, c, '__vp_collect_tokens', [it])
    if p == RESULT or p == OPTION:
        inner = crate.types[t['args'][0]]
        outs = run_model(I, c, '__vp_collect_result' if p == RESULT else '__vp_collect_option', [it])
        if tyname(inner) in (VEC,):
            return outs
        return outs
    return None


@prim('core::iter::traits::iterator::Iterator::collect')
def p_collect(I, c):
    a = c.args[0]
    t = c.ty(1)
    return collect(I, c, c.val(0) if a.op != 'ptr' else c.val(0), t, c.crate)


@prim('core::iter::traits::collect::FromIterator::from_iter')
def p_fromiter(I, c):
    it = as_iter(I, c.st, c.args[0])
    return collect(I, c, it, c.ty(0), c.crate)


@prim('core::iter::traits::iterator::Iterator::unzip')
def p_unzip(I, c):
    if tyname(c.ty(3)) == VEC and tyname(c.ty(4)) == VEC:
        return run_model(I, c, '__vp_unzip', [torange(I, c.val(0))])
    return None


@prim('core::iter::traits::iterator::Iterator::partition')
def p_partition(I, c):
    if tyname(c.ty(1)) == VEC:
        return run_model(I, c, '__vp_partition', [torange(I, c.val(0)), c.val(1)])
    return None


@prim('core::iter::traits::collect::Extend::extend')
def p_extend(I, c):
    p = c.args[0]
    old = c.val(0)
    it = torange(I, as_iter(I, c.st, c.args[1], peel(c.crate, c.ty(2)), c.crate))
    t = peel(c.crate, c.ty(0))
    if kindof(I, old) == 'set' or tyname(t) in SETS:
        return run_model(I, c, '__vp_collect_set', [old, it])
    if kindof(I, old) == 'map' or tyname(t) in MAPS:
        return run_model(I, c, '__vp_collect_map', [old, it])
    s = plain(it)
    if tyname(t) == 'alloc::string::String':
        if s is None:
            return None
        I.store(c.st, p.a[0], p.a[1], CAT([old, mk('join', s, STR(''))]))
        return c.ret(UNIT)
    if s is not None:
        I.emit(c.st, 'extend', p, s, old)
        I.store(c.st, p.a[0], p.a[1], cat(old, s))
        return c.ret(UNIT)
    if tyname(t) is not None and tyname(t).endswith('TokenStream'):
        return run_model(I, c, '__vp_extend_tokens', [p, it])
    return run_model(I, c, '__vp_extend_vec', [p, it])


@prim('core::iter::traits::iterator::Iterator::chain')
def p_chain(I, c):
    a = torange(I, c.val(0))
    b = torange(I, as_iter(I, c.st, c.args[1], peel(c.crate, c.ty(1)), c.crate))
    if b.op == 'agg' and b.a[0] == 'vpm::OptIter' and b.a[2][0].op == 'agg' and plain(a) is not None:
        o = b.a[2][0]
        return c.ret(SIT(cat(plain(a), SEQ((('e', o.a[2][0]),)) if o.a[1] == 'Some' else EMPTY)))
    if b.op == 'agg' and b.a[0] == 'vpm::OptIter' and b.a[2][0].op == 'agg':
        o = b.a[2][0]
        b = SIT(SEQ((('e', o.a[2][0]),)) if o.a[1] == 'Some' else EMPTY)
    if a.op == 'agg' and a.a[0] == 'vpm::OptIter' and a.a[2][0].op == 'agg':
        o = a.a[2][0]
        a = SIT(SEQ((('e', o.a[2][0]),)) if o.a[1] == 'Some' else EMPTY)
    return c.ret(AGG('vpm::Chain', '', (SOME(a), b)))


@prim('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def p_fncall(I, c):
    f = c.val(0)
    args = c.val(1)
    al = list(args.a[2]) if args.op == 'agg' else []
    if f.op == 'agg' and f.a[0] == CLOSURE:
        body = I.p.bodies[f.a[1]]
        st = body.crate.types[body.locals[1]['ty']]
        selfv = c.args[0]
        if selfv.op == 'ptr':
            # pointer to the closure itself, so that by-value captured state is updated
            while True:
                q = I.load(c.st, selfv.a[0], selfv.a[1])
                if q.op != 'ptr':
                    break
                selfv = q
            if not (st['k'] == 'ref' and st.get('mut')):
                selfv = f
        return I.exec_body(c.st, c.fr, c.bb, body, [selfv] + al)
    return I.call(c.st, c.fr, c.bb, c.t, f, al)


# ---- mem ---------------------------------------------------------------------------------------------
@prim('core::mem::replace')
def p_replace(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    if p.a[1] or True:
        I.emit(c.st, 'store', p.a[0], p.a[1], c.args[1])
    I.store(c.st, p.a[0], p.a[1], c.args[1])
    return c.ret(old)


@prim('core::mem::take')
def p_mtake(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    v = None
    if old.op in ('seq', 'seqrep', 'seqlv'):
        v = EMPTY
    else:
        v = default_of(I, c, c.dty(), c.fr.body.crate)
    if v is None:
        v = mk('default', old)
    I.emit(c.st, 'store', p.a[0], p.a[1], v)
    I.store(c.st, p.a[0], p.a[1], v)
    return c.ret(old)


@prim('core::option::Option::take')
def p_otake(I, c):
    p = c.args[0]
    while True:
        old = I.load(c.st, p.a[0], p.a[1])
        if old.op != 'ptr':
            break
        p = old
    I.store(c.st, p.a[0], p.a[1], NONE)
    return c.ret(old)


@prim('core::option::Option::replace', 'core::option::Option::insert', 'core::option::Option::get_or_insert')
def p_oreplace(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    n = c.path.split('::')[-1]
    pay = mk('ptr', p.a[0], p.a[1] + (('f', OPTION, 'Some', 0, '0'),))
    if n == 'get_or_insert':
        out = []
        for s, var in I.split(c.st, old, OPTION):
            if var == 'None':
                I.store(s, p.a[0], p.a[1], SOME(c.args[1]))
            out.append(('ret', s, pay))
        return out
    I.store(c.st, p.a[0], p.a[1], SOME(c.args[1]))
    return c.ret(old if n == 'replace' else pay)


@prim('core::option::Option::as_mut', 'core::option::Option::as_deref_mut')
def p_oasmut(I, c):
    p = c.args[0]
    if p.op != 'ptr':
        return c.ret(c.val(0))
    old = I.load(c.st, p.a[0], p.a[1])
    out = []
    for s, var in I.split(c.st, old, OPTION):
        out.append(('ret', s, NONE if var == 'None' else SOME(mk('ptr', p.a[0], p.a[1] + (('f', OPTION, 'Some', 0, '0'),)))))
    return out


@prim('core::mem::swap')
def p_swap(I, c):
    p, q = c.args[0], c.args[1]
    a, b = I.load(c.st, p.a[0], p.a[1]), I.load(c.st, q.a[0], q.a[1])
    I.emit(c.st, 'store', p.a[0], p.a[1], b)
    I.emit(c.st, 'store', q.a[0], q.a[1], a)
    I.store(c.st, p.a[0], p.a[1], b)
    I.store(c.st, q.a[0], q.a[1], a)
    return c.ret(UNIT)


# ---- ? operator ----------------------------------------------------------------------------------------
CF = 'core::ops::control_flow::ControlFlow'


@prim('core::ops::try_trait::Try::branch')
def p_branch(I, c):
    v = c.val(0)
    adt = v.a[0] if v.op == 'agg' else None
    if adt is None:
        adt = tyname(peel(c.crate, c.ty(0)))
    if adt not in (OPTION, RESULT):
        adt = OPTION if v.op == 'get' else RESULT
    out = []
    for s, n in I.split(c.st, v, adt):
        pay = I.field(v, adt, n, 0, '0') if n != 'None' else None
        if n in ('Some', 'Ok'):
            out.append(('ret', s, AGG(CF, 'Continue', (pay,))))
        else:
            out.append(('ret', s, AGG(CF, 'Break', (NONE if n == 'None' else ERR(pay),))))
    return out


@prim('core::ops::try_trait::FromResidual::from_residual')
def p_residual(I, c):
    return c.ret(c.val(0))


@prim('core::ops::try_trait::Try::from_output')
def p_fromout(I, c):
    d = tyname(c.dty())
    return c.ret(SOME(c.args[0]) if d == OPTION else OK(c.args[0]))


# ---- formatting -----------------------------------------------------------------------------------------
def fmt_pieces(b):
    """Decodes fmt::Arguments template bytes -> list of str | ('arg', index, has_options)."""
    out, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(bytes(b[i + 1:i + 1 + x]).decode('utf8', 'replace'))
            i += 1 + x
        elif x == 0x80:
            ln = b[i + 1] | (b[i + 2] << 8)
            out.append(bytes(b[i + 3:i + 3 + ln]).decode('utf8', 'replace'))
            i += 3 + ln
        else:
            i += 1
            opt = False
            if x & 1:
                i += 4
                opt = True
            if x & 2:
                i += 2
                opt = True
            if x & 4:
                i += 2
                opt = True
            if x & 8:
                n = b[i] | (b[i + 1] << 8)
                i += 2
            out.append(('arg', n, opt))
            n += 1
    return out


@prim('core::fmt::Arguments::new')
def p_args(I, c):
    tpl, args = c.val(0), c.val(1)
    al = []
    if args.op == 'seq':
        al = [x[1] for x in args.a[0]]
    ps = []
    if tpl.op == 'bytes':
        for q in fmt_pieces(tpl.a[0]):
            if isinstance(q, str):
                ps.append(STR(q))
            else:
                a = al[q[1]] if q[1] < len(al) else mk('unk', 'fmtarg')
                ps.append(mk('fmtopt', a) if q[2] else a)
    else:
        ps = [mk('unk', 'fmt')] + al
    return c.ret(CAT(ps))


@prim('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::new_const')
def p_args1(I, c):
    return c.ret(c.val(0))


def display(I, st, v):
    while v.op == 'ptr':
        v = I.load(st, v.a[0], v.a[1])
    if isstr(I, v):
        return v
    if v.op == 'int':
        return STR(str(v.a[0]))
    if v.op == 'ident':
        return v.a[0]
    if v.op == 'char':
        return STR(chr(v.a[0]))
    if v.op == 'agg' and v.a[0].split('::')[-1] == 'IdentFragmentAdapter' and len(v.a[2]) == 1:
        # an identifier loses its r#
        x = v.a[2][0]
        while x.op == 'ptr':
            x = I.load(st, x.a[0], x.a[1])
        d = display(I, st, x)
        t = I.typeof(x)
        return mk('unraw', d) if t is not None and tyname(t).split('::')[-1] == 'Ident' and x.op != 'ident' else d
    return mk('disp', v)


@prim('core::fmt::rt::Argument::new_display')
def p_argd(I, c):
    return c.ret(display(I, c.st, c.args[0]))


@prim('core::fmt::rt::Argument::new_debug')
def p_argdbg(I, c):
    t = c.ty(0)
    return c.ret(mk('dbg', I.snapshot(c.st, c.args[0]), t['s'] if t else ''))


@prim('alloc::fmt::format')
def p_format(I, c):
    return c.ret(c.val(0))


@prim('alloc::string::ToString::to_string')
def p_tostring(I, c):
    return c.ret(display(I, c.st, c.args[0]))


@prim('alloc::string::String::push_str', 'alloc::string::String::push')
def p_pushstr(I, c):
    p = c.args[0]
    old = I.load(c.st, p.a[0], p.a[1])
    x = c.val(1)
    if x.op == 'char':
        x = STR(chr(x.a[0]))
    I.store(c.st, p.a[0], p.a[1], CAT([old, x]))
    return c.ret(UNIT)


@prim('core::fmt::Write::write_str', 'core::fmt::Write::write_fmt')
def p_writestr(I, c):
    p = c.args[0]
    if p.op != 'ptr':
        return None
    old = I.load(c.st, p.a[0], p.a[1])
    if not isstr(I, old) and old.op not in ('lv', 'seqlv'):
        return None
    I.store(c.st, p.a[0], p.a[1], CAT([old, c.val(1)]))
    return c.ret(OK(UNIT))


@prim('alloc::str::to_lowercase', 'alloc::str::to_uppercase', 'core::str::trim', 'core::str::trim_start', 'core::str::trim_end',
      'core::str::trim_matches', 'core::str::trim_start_matches', 'core::str::trim_end_matches', 'alloc::str::replace', 'alloc::str::replacen',
      'alloc::str::to_ascii_lowercase', 'alloc::str::to_ascii_uppercase')
def p_strfn(I, c):
    return c.ret(mk('strfn', c.path.split('::')[-1], tuple(c.val(i) for i in range(len(c.args)))))


# ---- panics ----------------------------------------------------------------------------------------------
@prim('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::assert_failed', 'core::panicking::panic_default_msg',
      'core::panicking::unreachable_display', 'core::panicking::panic_explicit', 'std::rt::begin_panic', 'core::option::unwrap_failed',
      'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::panic_display', 'core::panicking::panic_str_2015',
      'std::process::abort', 'core::panicking::panic_nounwind')
def p_panic(I, c):
    I.emit(c.st, 'panic', c.path.split('::')[-1], tuple(I.snapshot(c.st, a) for a in c.args))
    return []


@prim('core::hint::unreachable_unchecked', 'core::intrinsics::unreachable')
def p_unreach(I, c):
    return []


# ---- quote / proc_macro2 ------------------------------------------------------------------------------------
PUNCT = {'and': '&', 'bang': '!', 'colon': ':', 'colon2': '::', 'comma': ',', 'dot': '.', 'dot2': '..', 'eq': '=',
         'fat_arrow': '=>', 'gt': '>', 'lt': '<', 'pound': '#', 'rarrow': '->', 'semi': ';', 'shr': '>>', 'shl': '<<',
         'star': '*', 'underscore': '_', 'add': '+', 'add_eq': '+=', 'and_and': '&&', 'and_eq': '&=', 'at': '@', 'caret': '^',
         'caret_eq': '^=', 'div': '/', 'div_eq': '/=', 'dot3': '...', 'dot_dot_eq': '..=', 'eq_eq': '==', 'ge': '>=', 'le': '<=',
         'mul_eq': '*=', 'ne': '!=', 'or': '|', 'or_eq': '|=', 'or_or': '||', 'question': '?', 'larrow': '<-', 'rem': '%',
         'rem_eq': '%=', 'shl_eq': '<<=', 'shr_eq': '>>=', 'sub': '-', 'sub_eq': '-='}


def tok_append(I, c, p, item):
    if p.op != 'ptr':
        return c.ret(UNIT)
    old = I.load(c.st, p.a[0], p.a[1])
    I.store(c.st, p.a[0], p.a[1], SEQ(parts(old) + (item,)))
    return c.ret(UNIT)


def _mkpunct(n, txt):
    def f(I, c):
        return tok_append(I, c, c.args[0], ('e', mk('tok', 'p', txt)))
    P['quote::__private::push_' + n] = f
    P['quote::__private::push_' + n + '_spanned'] = f


for _n, _t in PUNCT.items():
    _mkpunct(_n, _t)


@prim('quote::__private::push_ident', 'quote::__private::push_ident_spanned')
def q_ident(I, c):
    return tok_append(I, c, c.args[0], ('e', mk('tok', 'i', c.val(len(c.args) - 1).a[0])))


@prim('quote::__private::push_lifetime', 'quote::__private::push_lifetime_spanned')
def q_life(I, c):
    return tok_append(I, c, c.args[0], ('e', mk('tok', 'l', c.val(len(c.args) - 1).a[0])))


@prim('quote::__private::parse', 'quote::__private::parse_spanned')
def q_parse(I, c):
    return tok_append(I, c, c.args[0], ('e', mk('tok', 'x', c.val(len(c.args) - 1).a[0])))


@prim('quote::__private::push_group', 'quote::__private::push_group_spanned')
def q_group(I, c):
    off = len(c.args) - 3
    d = c.val(off + 1)
    inner = c.val(off + 2)
    nm = d.a[1] if d.op == 'agg' else '?'
    return tok_append(I, c, c.args[0], ('e', mk('tgroup', nm, inner)))


def unrep(v):
    while v.op == 'agg' and v.a[0].endswith('RepInterp') and v.a[2]:
        v = v.a[2][0]
    return v


@prim('quote::to_tokens::ToTokens::to_tokens')
def q_totokens(I, c):
    v = c.val(0)
    while True:
        w = unrep(v)
        while w.op == 'ptr':
            w = I.load(c.st, w.a[0], w.a[1])
        if w is v:
            break
        v = w
    t = I.typeof(v)
    st = peel(c.crate, c.ty(0))
    if v.op in ('seq', 'seqrep', 'seqlv') or tyname(t) == 'proc_macro2::TokenStream' or (tyname(st) or '').endswith('TokenStream'):
        return tok_append(I, c, c.args[1], ('s', v))
    tn = tyname(t) or (st['s'] if st is not None else '?')
    if st is not None and st['k'] not in ('param', 'other') and not (tyname(st) or '').endswith('RepInterp'):
        tn = tyname(st)
    return tok_append(I, c, c.args[1], ('e', mk('hole', v, tn)))


@prim('quote::to_tokens::ToTokens::to_token_stream', 'quote::to_tokens::ToTokens::into_token_stream')
def q_totokenstream(I, c):
    v = c.val(0)
    if v.op in ('seq', 'seqrep', 'seqlv'):
        return c.ret(v)
    t = I.typeof(v)
    return c.ret(mk('seq', (('e', mk('hole', v, tyname(t) or '?')),)))


@prim('quote::__private::ext::RepAsIteratorExt::quote_into_iter', 'quote::__private::ext::RepIteratorExt::quote_into_iter',
      'quote::__private::ext::RepToTokensExt::quote_into_iter')
def q_into(I, c):
    if 'RepToTokens' in c.path:
        v = c.args[0]
        return c.ret(TUP(AGG('vpm::Repeat', '', (v,)), AGG('quote::ThereIsNoIteratorInRepetition', '', ())))
    a = c.args[0]
    t = peel(c.crate, c.ty(0))
    it = as_iter(I, c.st, c.val(0) if 'RepAs' in c.path else a, t, c.crate)
    if it.op != 'agg':
        it = SIT(it)
    return c.ret(TUP(it, AGG('quote::HasIterator', '', ())))


@prim('core::ops::bit::BitOr::bitor')
def q_bitor(I, c):
    a, b = c.val(0), c.val(1)
    if (b.op == 'agg' and b.a[0] == 'quote::HasIterator') or (a.op == 'agg' and a.a[0] == 'quote::HasIterator'):
        return c.ret(AGG('quote::HasIterator', '', ()))
    return None


@prim('quote::__private::CheckHasIterator::check')
def q_check(I, c):
    return c.ret(UNIT)


@prim('proc_macro2::Ident::new', 'syn::ident::Ident::new', 'quote::__private::mk_ident', 'proc_macro2::Ident::new_raw')
def q_identnew(I, c):
    if I.bounds:
        I.emit(c.st, 'ident', c.val(0), c.path.split('::')[-1])
    return c.ret(mk('ident', c.val(0)))


@prim('proc_macro2::Span::call_site', 'proc_macro2::Span::mixed_site', 'proc_macro2::Ident::span', 'quote::__private::get_span',
      'proc_macro2::Span::def_site')
def q_span(I, c):
    return c.ret(mk('span', c.path.split('::')[-1]))


@prim('proc_macro2::Ident::set_span', 'proc_macro2::Literal::set_span', 'proc_macro2::Group::set_span', 'proc_macro2::Punct::set_span')
def q_setspan(I, c):
    # where an identifier points to is no part of its text
    return c.ret(UNIT)


@prim('syn::lit::LitStr::value')
def q_litval(I, c):
    r = mk('strof', c.val(0))
    return c.ret(r)


@prim('proc_macro2::Literal::usize_unsuffixed', 'proc_macro2::Literal::usize_suffixed', 'proc_macro2::Literal::u32_suffixed',
      'proc_macro2::Literal::u16_suffixed', 'proc_macro2::Literal::u32_unsuffixed', 'proc_macro2::Literal::u16_unsuffixed',
      'proc_macro2::Literal::string')
def q_lit(I, c):
    return c.ret(mk('literal', c.val(0)))


@prim('syn::lit::Index::from', 'syn::expr::Index::from')
def q_indexfrom(I, c):
    return c.ret(mk('literal', c.val(0)))


# ---- syn parsing --------------------------------------------------------------------------------------------
def bver(st, b):
    return st.ver.get(mk('pos', b), 0)


def bbump(I, st, b, n):
    d = dict(st.ver)
    d[mk('pos', b)] = n.id
    st.ver = d


def tshort(t):
    return t['s'] if t is not None else '?'


AST_TYPES = tuple('ast::' + t for t in ('Parser', 'GrammarItem', 'TokenEnum', 'Conversion', 'TypeDef', 'TypeDefKind', 'Pattern', 'FieldPattern',
                                        'Visibility', 'NonTerminal', 'Production', 'Symbol', 'Action'))


def do_parse(I, c, buf, tn, kind='parse'):
    if kind == 'parse' and tn not in AST_TYPES:
        k = I.p.impls.get(('syn::parse::Parse', tn, 'parse'))
        if k is not None and k in I.p.bodies and c.fr.keys.count(k) == 0:
            return I.exec_body(c.st, c.fr, c.bb, I.p.bodies[k], [buf])     # types of the crate outside the notation
    vr = bver(c.st, buf)
    out = []
    if kind == 'parse' and tn.startswith(('core::option::Option<', 'std::option::Option<')) and 'token::' in tn:
        tn = tn[tn.index('<') + 1:-1]
        for s, ok in I.fork(c.st, mk('peek', tn, buf, vr)):
            if ok:
                n = I.emit(s, 'parse', buf, tn, vr, kind)
                bbump(I, s, buf, n)
                out.append(('ret', s, OK(SOME(mk('parsed', tn, buf, vr, kind)))))
            else:
                out.append(('ret', s, OK(NONE)))
        return out
    a = mk('parses', tn, buf, vr)
    for s, ok in I.fork(c.st, a):
        if ok:
            n = I.emit(s, 'parse', buf, tn, vr, kind)
            bbump(I, s, buf, n)
            v = mk('parsed', tn, buf, vr, kind)
            out.append(('ret', s, OK(v)))
        else:
            out.append(('ret', s, ERR(mk('perr', tn, buf, vr))))
    return out


@prim('syn::parse::ParseBuffer::parse')
def y_parse(I, c):
    return do_parse(I, c, c.val(0), tshort(c.ty(0)))


@prim('syn::parse::Parse::parse')
def y_parse2(I, c):
    t = c.ty(0)
    return do_parse(I, c, c.val(0), tshort(t))


@prim('syn::parse::ParseBuffer::call')
def y_call(I, c):
    f = c.val(1)
    if f.op == 'fn':
        return I.call(c.st, c.fr, c.bb, c.t, f, [c.args[0]])
    return None


@prim('syn::parse_macro_input::parse', 'syn::parse', 'syn::parse2', 'syn::parse_str')
def y_parsemacro(I, c):
    out = []
    t = c.ty(0)
    buf = mk('input', c.val(0))
    return do_parse(I, c, buf, tshort(t))


@prim('syn::punctuated::Punctuated::parse_terminated', 'syn::punctuated::Punctuated::parse_separated_nonempty',
      'syn::punctuated::Punctuated::parse_terminated_with')
def y_punct(I, c):
    r = do_parse(I, c, c.val(0), tshort(c.ty(0)) + ',' + tshort(c.ty(1)), c.path.split('::')[-1])
    return r


@prim('syn::parse::ParseBuffer::parse_terminated')
def y_punct2(I, c):
    f = c.val(1)
    return do_parse(I, c, c.val(0), tshort(c.ty(0)) + ',' + tshort(c.ty(1)), 'parse_terminated')


@prim('syn::punctuated::Punctuated::into_pairs', 'syn::punctuated::Punctuated::pairs', 'syn::punctuated::Punctuated::iter',
      'syn::punctuated::Punctuated::into_iter')
def y_pairs(I, c):
    return c.ret(SIT(c.val(0)))


@prim('syn::punctuated::Pair::into_value', 'syn::punctuated::Pair::value')
def y_pairval(I, c):
    return c.ret(c.val(0))


@prim('syn::parse::ParseBuffer::peek', 'syn::parse::ParseBuffer::peek2', 'syn::parse::ParseBuffer::peek3')
def y_peek(I, c):
    f = c.val(1)
    nm = f.a[0] if f.op == 'fn' else show(f)
    k = c.path.split('::')[-1]
    b = c.val(0)
    return c.ret(mk('peek', nm if k == 'peek' else nm + '#' + k, b, bver(c.st, b)))


@prim('syn::parse::ParseBuffer::is_empty')
def y_isempty(I, c):
    b = c.val(0)
    return c.ret(mk('pempty', b, bver(c.st, b)))


@prim('syn::parse::ParseBuffer::span', 'syn::parse::ParseBuffer::cursor')
def y_span(I, c):
    return c.ret(mk('span', 'input'))


@prim('syn::group::parse_braces', 'syn::group::parse_parens', 'syn::group::parse_brackets')
def y_group(I, c):
    buf = c.val(0)
    vr = bver(c.st, buf)
    k = c.path.split('_')[-1]
    out = []
    for s, ok in I.fork(c.st, mk('parses', k, buf, vr)):
        if ok:
            n = I.emit(s, 'parse', buf, k, vr, 'group')
            bbump(I, s, buf, n)
            inner = mk('buf', k, buf, vr)
            adt = {'braces': 'Braces', 'parens': 'Parens', 'brackets': 'Brackets'}[k]
            out.append(('ret', s, OK(AGG('syn::group::' + adt, '', (mk('parsed', k, buf, vr, 'tok'), inner)))))
        else:
            out.append(('ret', s, ERR(mk('perr', k, buf, vr))))
    return out


@prim('syn::parse::ParseBuffer::fork')
def y_fork(I, c):
    b = c.val(0)
    return c.ret(mk('forked', b, bver(c.st, b)))


# ---- model intrinsics -----------------------------------------------------------------------------------------
def intrinsic(I, c, nm):
    if nm == '__vp_can_retry':
        n = c.st.node
        if I.loopstack and n is not None and n.kind == 'hdr' and n.data[0] == I.loopstack[-1]:
            return c.ret(TRUE)
        return c.ret(FALSE)
    if nm == '__vp_retry' or nm == '__vp_phase':
        return [(nm[5:], c.st, I.loopstack[-1])]
    if nm == '__vp_new_vec':
        return c.ret(EMPTY)
    if nm == '__vp_result_branch' or nm == '__vp_option_branch':
        return p_branch(I, c)
    return None
