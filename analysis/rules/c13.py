"""Effect analysis over the resolved call graph: every function reachable from the macro entry calls only
effect-free code (no file, environment, clock, network, process, thread, terminal or source-position API), uses no
mutable static, thread-local, foreign function or address-to-integer conversion, and no type it uses is seeded
randomly.  Rule: denied effect roots must be unreachable from the entry point."""
import re
import reach
import mir
from base import Graph, Undecided, T, walk, where

DENY = [
    (r'^(std|core)::env::', 'environment'), (r'^std::fs::', 'files'), (r'^std::net::', 'network'),
    (r'^std::process::', 'processes'), (r'^std::time::', 'clock'), (r'^std::thread::', 'threads'),
    (r'^std::io::', 'input/output'), (r'^std::os::', 'operating system'), (r'^std::sys::', 'operating system'),
    (r'^std::random::|^core::random::', 'randomness'), (r'RandomState', 'random seed'),
    (r'^std::panic::(set|take)_hook|^std::panicking::(set|take)_hook', 'global panic hook'),
    (r'^proc_macro::tracked|^proc_macro::tracked_', 'tracked environment or path'),
    (r'^proc_macro2?::(extra::)?(Span|SourceFile|DelimSpan)\b.*::(start|end|line|column|file|local_file|source_file|source_text|byte_range|unstable_source)$',
     'source position'),
    (r'^std::alloc::System|^std::alloc::(set|take)_alloc', 'allocator state'),
    (r'^(core|std)::arch::.*(rdrand|rdtsc|rdseed)', 'randomness or clock'),
    (r'^(core|std)::sync::(atomic|mutex)|^std::sync::', 'shared mutable state'),
]
TYPES = [(r'RandomState', 'randomly seeded collection'), (r'^std::time::|[<( ]std::time::', 'clock value'),
         (r'^std::fs::|[<( ]std::fs::', 'file handle')]


def check(ctx, rep, tier):
    P = ctx.P
    seen, g = reach.reachable(P)
    e = reach.entry(P)
    if e is None:
        rep.und('entry', '-', 'macro entry not found')
        return
    rep.note('functions', len(seen))
    sites = 0
    badt = {}
    for i, t in enumerate(P.repo.types):
        for rx, what in TYPES:
            if re.search(rx, t['s']):
                badt[i] = what
    items = {i['path']: i for i in P.repo.j['items'] if i['kind'] == 'static'}
    for k in sorted(seen):
        b = P.bodies[k]
        bad = False
        for j, x in g[k][1]:
            sites += 1
            names = {mir.strip_generics(j['path'])}
            if 'resolved' in j:
                names.add(mir.strip_generics(j['resolved']))
            for n in names:
                # `<T as Trait>::m` names: look inside
                for cand in [n] + re.findall(r'[A-Za-z_0-9]+(?:::[A-Za-z_0-9]+)+', n):
                    for rx, what in DENY:
                        if re.search(rx, cand):
                            rep.viol('effect', b.span, 'function %s uses %s: %s' % (k, what, n))
                            bad = True
            for a in j.get('args', ()):
                if a in badt:
                    rep.viol('seeded', b.span, 'function %s uses %s: %s' % (k, badt[a], P.repo.types[a]['s']))
                    bad = True
            if j.get('foreign'):
                rep.viol('effect', b.span, 'function %s calls foreign item %s' % (k, j['path']))
                bad = True
            if 'new_pointer' in j['path'] and 'fmt' in j['path']:
                rep.viol('address', b.span, 'function %s formats an address' % k)
                bad = True
        for l in b.locals:
            if l['ty'] in badt:
                rep.viol('seeded', b.span, 'function %s uses %s: %s' % (k, badt[l['ty']], P.repo.types[l['ty']]['s']))
                bad = True
                break
        for s in g[k][2]:
            it = items.get(s) or next((v for p, v in items.items() if p.endswith(str(s)) or str(s).endswith(p)), None)
            if it is not None and (it.get('mut') or not it.get('freeze', True) or it.get('tls')):
                rep.viol('global state', it['span'], 'function %s uses the mutable static %s' % (k, s))
                bad = True

        def f(x):
            nonlocal bad
            r = x.get('r')
            if r == 'cast' and x.get('k') in ('PointerExposeAddress', 'PointerExposeProvenance'):
                rep.viol('address', b.span, 'function %s converts an address to an integer' % k)
                bad = True
            if r == 'cast' and x.get('k') == 'Transmute':
                a, c = P.repo.types[x['from']], P.repo.types[x['to']]
                if a['k'] in ('ptr', 'ref') and c['s'] in ('usize', 'u64', 'isize', 'i64'):
                    rep.viol('address', b.span, 'function %s transmutes an address to an integer' % k)
                    bad = True
            if r == 'tls':
                rep.viol('global state', b.span, 'function %s uses a thread-local' % k)
                bad = True
        for bl in b.blocks:
            if not bl.get('cleanup'):
                reach.walkj(bl['s'], f)
        if not bad:
            rep.ok('effect-free', b.span, k)
    for it in items.values():
        if it.get('mut') or not it.get('freeze', True) or it.get('tls'):
            rep.note('mutable static ' + it['path'], it['span'])
    rep.note('call sites', sites)
    positions(ctx, rep)
    # fields of local types
    for a in P.repo.j['adts']:
        if not a['local']:
            continue
        for v in a['variants']:
            for fl in v['fields']:
                if fl['ty'] in badt:
                    rep.viol('seeded', a['path'], 'field %s is a %s' % (fl['name'], badt[fl['ty']]))
    rep.check(len(seen) >= 40, 'coverage', e, '%d functions reachable' % len(seen), 'call graph collapsed: %d functions' % len(seen))
    rep.assumptions += ['syn, quote, proc-macro2, fxhash and std collections are deterministic and effect-free themselves',
                        'iteration order of an Fx-hashed collection is a function of its history']


def positions(ctx, rep):
    """Debug text of tokens and syntax holds source positions and macro-expansion numbers: it may only appear in messages."""
    P = ctx.P
    local = {a['path']: ' '.join(P.repo.types[fl['ty']]['s'] for v in a['variants'] for fl in v['fields']) for a in P.repo.j['adts'] if a['local']}
    bad = set()
    spanful = lambda s: bool(re.search(r'\b(syn|proc_macro2?)::', s)) or any(re.search(r'(?<![\w:])%s(?!\w)' % re.escape(p), s) for p in bad)
    n = -1
    while n != len(bad):
        n = len(bad)
        bad |= {p for p, s in local.items() if spanful(s)}
    try:
        I = ctx.run('parser')
    except Undecided as e:
        rep.und('positions', '-', str(e)[:150])
        return
    G = Graph(I)
    memo = {}

    def holds(t):
        if t not in memo:
            memo[t] = next((x for x in walk(t) if x.op == 'dbg' and spanful(str(x.a[1]))), None)
        return memo[t]
    hit = set()
    for m in G.nodes:
        if m.kind in ('cond', 'ins', 'ret', 'store', 'push'):
            for d in m.data:
                x = holds(d) if isinstance(d, T) else None
                if x is not None and x.a[1] not in hit and not (m.kind == 'ret' and d.op == 'agg' and d.a[1] == 'Err'):
                    hit.add(x.a[1])
                    rep.viol('positions', where(m), 'the result depends on the debug text of a %s, which holds source positions' % x.a[1])
    if not hit:
        rep.ok('positions', '-', 'no debug text of tokens reaches a decision or the result (%d events)' % len(G.nodes))
