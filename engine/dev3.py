"""compact exits for functions"""
import sys, re
from unit import *
P, E = make(sys.argv[1])
E.join_all_errs = False
E.exit_limit = 200
import traceback
for f in P.locals:
    if re.search(sys.argv[2], f.name):
        print('==', f.name, 'argc', f.argc)
        E.budget = 3000000; 
        E.stats['blocks'] = 0
        try:
            r = run_unit(E, f)
        except Exception as e:
            print('   FAIL', repr(e)[:200]); continue
        for s, v in r.exits:
            print('  ->', str(E.deep(s, v))[:500])
            print('       if', str({k: v for k, v in s.facts.items()})[:500])
        seen=set()
        for k, kw in r.events:
            if k in ('panic', 'opaque', 'unknown_call', 'rec_call'):
                t=str((k, {a: b for a, b in kw.items() if a not in ('st', 'fr', 'span')}))[:200]
                if t not in seen:
                    seen.add(t); print('   !', t)
