"""Random self test: simplifier, evaluator and bit blaster agree."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from irvc.term import *
from irvc.solve import sat
def rnd(d,w):
    if d==0 or random.random()<.1: return random.choice([var('x%d'%w,w),var('y%d'%w,w),const(random.getrandbits(w),w)])
    o=random.choice(['add','sub','mul','and','or','xor','not','shl','lshr','ashr','ite','cc','udiv','urem','clz','ctz','sext','pop'])
    f=dict(add=add,sub=sub,mul=mul,shl=shl,lshr=lshr,ashr=ashr,udiv=udiv,urem=urem); f.update({'and':and_,'or':or_,'xor':xor})
    if o in f: return f[o](rnd(d-1,w),rnd(d-1,w))
    if o=='not': return not_(rnd(d-1,w))
    if o=='clz': return clz(rnd(d-1,w))
    if o=='ctz': return ctz(rnd(d-1,w))
    if o=='pop': return popcnt(rnd(d-1,w))
    if o=='ite': return ite(random.choice([ult,slt,eq])(rnd(d-1,w),rnd(d-1,w)),rnd(d-1,w),rnd(d-1,w))
    if o=='cc': k=random.randint(1,w-1); return concat(extract(w-1,k,rnd(d-1,w)),extract(k-1,0,rnd(d-1,w)))
    k=random.randint(1,w-1); return random.choice([sext,zext])(extract(k-1,0,rnd(d-1,w)),w)
random.seed(int(os.environ.get("VERIF_SEED", "1")))
for i in range(int(sys.argv[1]) if len(sys.argv) > 1 else 300):
    w=random.choice([4,7,8,13])
    t=rnd(5,w); vs=variables(t)
    env={v:random.getrandbits(v.w) for v in vs}
    [v]=evaluate([t],env)
    lo,hi=urange(t); assert lo<=v<=hi
    a,b=srange(t); assert a<=sgn(v,w)<=b
    [s]=substitute([t],{k:const(x,k.w) for k,x in env.items()})
    assert s.op=='const' and s.x==v,(t,env,v,s)
    r=sat([eq(k,const(x,k.w)) for k,x in env.items()]+[ne(t,const(v,w))])
    assert r.st=='unsat',(t,env,v,r)
print('ok')
