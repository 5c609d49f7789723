"""Rendering of token templates (quote! output values) as text."""
from terms import *
OPEN={'Parenthesis':'(','Brace':'{','Bracket':'[','None':'','?':'('}
CLOSE={'Parenthesis':')','Brace':'}','Bracket':']','None':'','?':')'}
def text(v, f=None):
    out=[]
    rend(v,out,f)
    return ' '.join(out)
def rend(v,out,f):
    if v.op=='seq':
        for k,x in v.a[0]:
            if k=='e': tok(x,out,f)
            else: rend(x,out,f)
        return
    if v.op=='seqrep':
        if v.a[1] is not EMPTY: rend(v.a[1],out,f)
        out.append('«rep%s'%loopname(v.a[0]))
        for i,(fd,ps) in enumerate(v.a[2]):
            if i: out.append('¦')
            for k,x in ps:
                if k=='e': tok(x,out,f)
                else: rend(x,out,f)
        out.append('»')
        return
    out.append('⟦%s⟧'%show(v)[:120])
def tok(x,out,f):
    if x.op=='tok': out.append(x.a[1] if x.a[0]!='l' else x.a[1])
    elif x.op=='tgroup':
        out.append(OPEN.get(x.a[0],'<?'));rend(x.a[1],out,f);out.append(CLOSE.get(x.a[0],'?>'))
    elif x.op=='hole': out.append('‹%s: %s›'%(show(x.a[0])[:160],x.a[1]))
    else: out.append('⟪%s⟫'%show(x)[:200])
if __name__=='__main__':
    import sys
    from rundev import *
    P=prog()
    b=P.bodies.get(sys.argv[1]) or P.find(sys.argv[1])[0]
    opq=set(sys.argv[2:])
    I=interp.Interp(P,prims,opaque=opq)
    I.run(b)
    for n in I.rets:
        print(text(n.data[0]) if n.data[0].op!='agg' else [text(x) for x in n.data[0].a[2]])
        print()
