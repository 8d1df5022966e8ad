import sys, re
from unit import *
P, E = make(sys.argv[1])
import traceback
for f in P.locals:
    if re.search(sys.argv[2], f.name):
        print('==', f.name)
        try:
            r = run_unit(E, f)
        except Exception as e:
            traceback.print_exc(limit=-4)
            continue
        for s, v in r.exits:
            print('  ->', E.deep(s, v))
            print('      facts:', {k: v for k, v in s.facts.items()}, {k: v for k, v in s.gh.items()})
        for k, kw in r.events:
            if k in ('panic', 'opaque', 'unknown_call', 'rec_call'):
                print('   !', k, {a: b for a, b in kw.items() if a not in ('st', 'fr', 'span')}, kw.get('span'))
