import sys; sys.path.insert(0,'/verif')
from sa.program import Program
from sa.interp import Interp
from sa.terms import show
p=Program()
I=Interp(p)
cls,name=sys.argv[1].rsplit('.',1)
f = p.method(cls,name) if cls and not cls.startswith('irtorch') else p.func(sys.argv[1])
r=I.run(f)
kinds=set(sys.argv[2].split(',')) if len(sys.argv)>2 else None
for e in r.events:
    if kinds and e.kind not in kinds: continue
    d=e.data
    s=show(d) if hasattr(d,'op') else str(tuple(show(x) if hasattr(x,'op') else x for x in d)) if isinstance(d,tuple) else str(d)
    print(e.kind, f"{e.path.split('/')[-1]}:{e.line}", s[:600], '| ex', str(e.extra)[:120] if e.extra is not None else '', '| c', [(show(c)[:60],q) for c,q in e.conds][-3:], '| L',e.loops,'| ctx',[ (x[0],x[1] if not hasattr(x[1],'op') else show(x[1])[:40]) for x in e.ctx])
print("VALUE", show(r.value)[:3000])
for k,v in I.steps.items():
    for kk,vv in v.items(): print('STEP',k,kk,[show(t)[:300] for c,t in vv])
