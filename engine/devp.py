import sys, time
from unit import *
from parser import *
P, E = make(sys.argv[1])
PM = ParserModel(P, E)
print('hubs', [P.fns[h].name for h in PM.hubs], 'roots', [f.name for f in PM.roots()])
print('abstract', [P.fns[i].name for i in E.models.abstract])
t=time.time()
E.budget=3000000
PM.solve(True)
print(time.time()-t, PM.pre, PM.strict)
from collections import Counter
cn=Counter()
for i,r in PM.runs.items():
    print(r.fn.name, len(r.exits))
    for k,kw in r.events:
        if k in ('panic','opaque','unknown_call','rec_call'):
            w=E.where(kw['fr'],kw['span'])
            cn[(r.fn.name.rsplit('::')[-1], k, kw.get('what') or kw.get('name') or str(kw.get('callee')), w[0][0].rsplit('::',1)[-1], w[0][1][1])]+=1
for k,n in sorted(cn.items(), key=str): print(n,k)
