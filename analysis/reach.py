"""Call-graph reachability over the dumped MIR (conservative: foreign trait impls count as called)."""


def walkj(x, f):
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walkj(v, f)
    elif isinstance(x, list):
        for v in x:
            walkj(v, f)


def entry(P):
    """Key of the proc-macro entry point."""
    for k in ('parser',):
        if k in P.bodies:
            return k
    c = [b.key for b in P.bodies.values() if not b.model and b.key.split('::')[-1] == 'parser']
    return c[0] if c else None


def graph(P):
    """key -> (set of local callee keys, list of fn refs)"""
    methods = {}
    for i in P.repo.j['impls']:
        if 'trait' in i:
            for m, k in i['methods']:
                methods.setdefault((i['trait'], m), []).append(k)
    out = {}
    for k, b in P.bodies.items():
        if b.model:
            continue
        cal, refs, stat = set(), [], []

        def f(x):
            if 'fn' in x and isinstance(x['fn'], dict) and 'path' in x['fn']:
                j = x['fn']
                refs.append((j, x))
                for kk in ('key', 'resolved_key'):
                    if kk in j:
                        cal.add(j[kk])
                if j.get('trait'):
                    m = j['path'].split('::')[-1]
                    cal.update(methods.get((j['trait'], m), ()))
            if x.get('k') == 'closure' and 'key' in x:
                cal.add(x['key'])
            if 'item' in x and isinstance(x['item'], str):
                cal.add(x['item'])
            if 'static' in x:
                stat.append(x['static'])
        for bl in b.blocks:
            if not bl.get('cleanup'):
                walkj(bl['s'], f)
                walkj(bl['t'], f)
        out[k] = (cal, refs, stat)
    return out, methods


def reachable(P):
    g, methods = graph(P)
    e = entry(P)
    seen = set()
    st = [e] if e else []
    # impls of foreign traits may be called from other crates
    for i in P.repo.j['impls']:
        if 'trait' in i and i['trait'].split('::')[0] in ('core', 'alloc', 'std', 'syn', 'quote', 'proc_macro2'):
            if i['trait'] in ('core::fmt::Debug', 'core::fmt::Display') and False:
                continue
            st += [k for _, k in i['methods']]
    while st:
        k = st.pop()
        if k in seen or k not in g:
            continue
        seen.add(k)
        st += list(g[k][0])
        # closures defined in the body
        st += [c for c in g if c.startswith(k + '::{closure')]
    return seen, g
