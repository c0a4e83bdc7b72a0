import sys; sys.path.insert(0,'/verif/lib')
import engine as en, term as tm
from term import *
from engine import *
F=Facts('/tmp/facts')
def go(path, opaque=None, args=None, env=None, pre=None):
    E=Engine(F, opaque)
    b=F.fn(path)
    if b is None: print('NO',path); return
    bd=b['body']; st=State()
    a=[]
    for i in range(bd['argc']):
        nm=b['params'][i] if i<len(b['params']) else 'a%d'%i
        s=sym(nm); ty=bd['locals'][i+1]
        if ty[0]=='ref' and ty[1]:
            st.store[('P',nm)]=s; s=T('ref',('P',nm),())
        a.append(s)
    if args: a=args(a) or a
    gi=[g for g in b['generics']]; 
    env=env or tuple(('param',g[0],g[1]) for g in gi)
    r=E.eval_body(b,bd,env,a,st,None)
    return E,r
if __name__=='__main__':
    for p in sys.argv[1:]:
        x=go(p)
        if not x: continue
        E,r=x
        print('==',p); 
        if r is None: print('  diverges')
        else:
            print('  ret',r[0]); 
            for k,v in r[1].store.items(): print('  st',k,v)
        for e in E.events:
            if e.kind!='adt' and not (e.name or '').startswith('core::fmt::'): print('   ev',e.kind,e.name,e.args,'ret',e.ret,'pc',e.pc,'loops',e.loops)
        print('  unk',E.unk, E.nstmts)
