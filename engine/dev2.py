import sys, re, time
from unit import *
P, E = make(sys.argv[1])
import traceback
for f in P.locals:
    if re.search(sys.argv[2], f.name) and f.kind!='Closure' and '{closure' not in f.name and not re.search('parse::parser',f.name):
        t=time.time()
        try:
            b0=E.stats['blocks']
            E.budget=b0+40000
            r = run_unit(E, f)
            print('%6d %.2f %3d %s' % (E.stats['blocks']-b0, time.time()-t, len(r.exits), f.name), [ (k, kw.get('what') or kw.get('name') or str(kw.get('callee')), kw.get('span')) for k,kw in r.events if k in ('panic','opaque','unknown_call','rec_call')][:6])
        except Exception as e:
            print('FAIL', f.name, type(e).__name__, str(e)[:200])
            tb=traceback.extract_tb(e.__traceback__)
            print('     ', [(x.name,x.lineno) for x in tb[-3:]])
