import sys; sys.path.insert(0,'/verif/engine')
from run1 import *
import contracts as C, inputs as X, itertools, time
def runop(name, cls):
    I=mkI(); I.hooks=C.hooks
    r=[r for r in P.api['roots'] if r['path']==name][0]
    I.nocontract={r['inst']}
    st=State(); f=P.fns[r['inst']]
    args=[];infos=[]
    for i,(c,t) in enumerate(zip(cls,f['locals'][1:])):
        v,info=X.big_obj(I,st,c,'ab'[i])
        if I.T[t]['k']=='ref':
            o=I.newobj(st,v,'arg'); I.pinned.add(o); v=('P',o,(),None)
        args.append(v);infos.append(info)
    return I,I.call(st,r['inst'],args),infos
classes=['nan','zero',('+','pos'),('-','pos')]
def show(l): return l if type(l) is not tuple else ' + '.join(['%s'%l[1]]+['%d*%s'%(c,A_key[a]) for a,c in l[2]])
for op in sys.argv[1:]:
    n='<bigint::bigint::BigInt as std::ops::%s>::%s'%(op,op.lower())
    for c in itertools.product(classes,classes):
        t0=time.time()
        I,res,infos=runop(n,c)
        print(op,c,round(time.time()-t0,2),I.steps)
        for s,v in res:
            try:
                m,sg,rc=X.read_big(I,s,v)
                print('    ',sg,show(m),sorted(s.imp)[:3])
            except Split as e: print('   split')
        for p in I.panics: print('    panic',p.msg,p.where)
