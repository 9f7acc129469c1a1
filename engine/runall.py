import sys,time,traceback,json
from multiprocessing import Pool
sys.path.insert(0,'/verif/engine')
import run1
from run1 import *
def job(i):
    r=P.api['roots'][i]
    I=mkI(budget=300000)
    f=P.fns[r['inst']]
    t0=time.time()
    try:
        st=State()
        args=[I.materialize(st,t) if I.T[t]['k'] not in('int','bool') else I.havoc(st,t) for t in f['locals'][1:1+f['argc']]]
        res=I.call(st,r['inst'],args)
        imp=set()
        for s,v in res: imp|=s.imp
        return i,'ok',time.time()-t0,I.steps,dict(I.unmod),sorted(imp),[(p.kind,p.where,p.msg) for p in I.panics]
    except Budget: return i,'budget',time.time()-t0,I.steps,dict(I.unmod),[],[]
    except RecursionError as e: return i,'rec',time.time()-t0,I.steps,dict(I.unmod),[],[]
    except Exception as e:
        return i,'EXC '+traceback.format_exc(limit=-3),time.time()-t0,I.steps,dict(I.unmod),[],[]
if __name__=='__main__':
    import resource
    roots=P.api['roots']
    with Pool(8) as p: out=p.map(job,range(len(roots)),chunksize=4)
    json.dump(out,open('/tmp/all.json','w'))
    from collections import Counter
    print(Counter(o[1].split()[0] for o in out))
    ex=Counter(o[1] for o in out if o[1].startswith('EXC'))
    for k,v in ex.most_common(12): print(v,k,'e.g.',[roots[o[0]]['path'] for o in out if o[1]==k][:3])
    um=Counter()
    for o in out:
        for k in o[4]: um[k]+=1
    print('UNMOD',um.most_common(50))
    im=Counter()
    for o in out:
        for k in o[5]: im[k]+=1
    print('IMP',im.most_common(50))
    print('total',sum(o[2] for o in out),'slow',sorted([(round(o[2],1),roots[o[0]]['path'],o[1][:6]) for o in out],reverse=True)[:25])
    print('budget',[roots[o[0]]['path'] for o in out if o[1]=='budget'])
