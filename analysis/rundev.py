import sys, time
sys.path.insert(0,'/verif/analysis')
import dump, mir, interp, prims
from terms import *
def prog():
    return mir.Program(dump.dump_repo(), dump.dump_file('/verif/models/models.rs','vpmodels'))
def show_graph(I, limit=400):
    for n in I.live_nodes[:limit]:
        d=[]
        for x in n.data:
            d.append(show(x)[:330])
        print('%4d %-6s %s  %s -> %s   %s'%(n.id,n.kind,' '*2*len(n.loops),' , '.join(d),[x.id for x in n.succ], n.span.split('/')[-1]))
if __name__=='__main__':
    P=prog()
    b=P.bodies.get(sys.argv[1]) or P.find(sys.argv[1])[0]
    I=interp.Interp(P,prims)
    t=time.time()
    try:
        I.run(b)
        show_graph(I)
    finally:
        print(len(I.nodes), I.stats['blocks'], I.stats['maxstates'], time.time()-t, I.opaque_calls, I.unknown)
        print({k:v for k,v in I.mods.items()})
