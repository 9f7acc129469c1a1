import sys,time
sys.path.insert(0,'/verif/engine')
from mir import Prog
from interp import *
import models
P=Prog('/tmp/d.json')
def mkI(**k):
    I=Interp(P,**k); I.models=models.M; return I
def run(name, I=None, targs=None):
    I=I or mkI()
    for r in P.api['roots']:
        if r['path']==name and (targs is None or r['targs']==targs):
            f=P.fns[r['inst']]
            I.reset()
            st=State()
            args=[I.materialize(st,t) if I.T[t]['k'] not in('int','bool') else I.havoc(st,t) for t in f['locals'][1:1+f['argc']]]
            t0=time.time()
            try: res=I.call(st,r['inst'],args)
            except Budget: return I,'budget',time.time()-t0
            return I,res,time.time()-t0
if __name__=='__main__':
    I,res,dt=run(sys.argv[1])
    print(dt,I.steps,I.stats)
    if res!='budget':
        for s,v in res: print(v, sorted(s.imp)[:10], len(s.mem),len(s.facts),len(s.rel))
    for p in I.panics[:10]: print('PANIC',p.kind,p.where,p.msg)
    print(I.unmod)
