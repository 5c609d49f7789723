"""Pretty printer for dumped MIR (development aid)."""
import sys
def place(p):
    o='_%s'%p[0]
    for e in p[1:]:
        if e=='*': o='(*%s)'%o
        elif isinstance(e,str): o+='?'+e
        elif 'f' in e: o+='.%s'%e.get('n',e['f'])
        elif 'i' in e: o+='[_%s]'%e['i']
        elif 'v' in e: o+='@'+e['v']
        else: o+=str(e)
    return o
def fn(f,T):
    s=f['path']
    if f.get('args'): s+='::<'+', '.join(T[a]['s'] for a in f['args'])+'>'
    if 'resolved' in f: s+='{=>'+f['resolved']+(' #'+f['resolved_key'] if 'resolved_key' in f else '')+'}'
    if 'ctor' in f: s+='{ctor %s %s}'%(f['ctor'],f['variant'])
    return s
def op(o,T):
    if 'copy' in o: return place(o['copy'])
    if 'move' in o: return 'mv '+place(o['move'])
    if 'const' in o:
        c=o['const']
        if 'fn' in c: return fn(c['fn'],T)
        return 'const '+str({k:v for k,v in c.items() if k!='ty'})+':'+T[c['ty']]['s']
    return str(o)
def rv(r,T):
    k=r['r']
    if k=='use': return op(r['o'],T)
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+place(r['p'])
    if k=='bin': return '%s %s %s'%(op(r['a'],T),r['op'],op(r['b'],T))
    if k=='un': return '%s %s'%(r['op'],op(r['a'],T))
    if k=='discr': return 'discr '+place(r['p'])
    if k=='cast': return 'cast %s %s -> %s'%(op(r['o'],T),r['kk'],T[r['to']]['s'])
    if k=='agg': return 'agg %s %s %s [%s]'%(r.get('k'),r.get('path',r.get('key','')),r.get('variant',''),', '.join(op(x,T) for x in r['ops']))
    return str(r)
def body(b,T):
    print('fn',b['key'],b['span'],'argc',b['argc'], 'spread' , b.get('spread'))
    for i,l in enumerate(b['locals']): print('   _%d: %s %s'%(i,T[l['ty']]['s'],l.get('name','')))
    for i,bl in enumerate(b['blocks']):
        if bl['cleanup']: continue
        print(' bb%d'%i)
        for s in bl['s']:
            if s['k']=='=': print('    ',place(s['p']),'=',rv(s['v'],T), '//', s['sp'])
            elif s['k'] in('live','dead'): pass
            else: print('    ',s)
        t=bl['t']
        k=t['k']
        if k=='call': print('    ',place(t['d']),'= CALL',op(t['f'],T),'(',', '.join(op(a,T) for a in t['args']),') ->',t.get('t'))
        elif k=='switch': print('     switch',op(t['o'],T),t['arms'],'else',t['else'])
        elif k=='drop': print('     drop',place(t['p']),'->',t['t'])
        elif k=='assert': print('     assert',op(t['o'],T),t['expected'],'->',t['t'])
        else: print('     ',k,t.get('t',''))
if __name__=='__main__':
    import dump
    d=dump.dump_file(sys.argv[2],sys.argv[3]) if len(sys.argv)>3 else dump.dump_repo()
    for b in d['bodies']:
        if b['key'].endswith(sys.argv[1]): body(b,d['types'])
