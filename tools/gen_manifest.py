#!/usr/bin/env python3
"""Writes MANIFEST.json from rules/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'rules'))
sys.dont_write_bytecode = True
import base, registry
NA = {
    'C24': 'It does not hold today and is not a small repair: values nested through variables, globals or parents are not '
           'limited in depth, and dropping, comparing, writing and typing them are recursive (demonstrated: 100,000 globals of '
           'the form @b: {x: @a}; see DESIGN.md). The depth of data is a run-time quantity that no static argument in reach '
           'bounds; the recursion of the parser itself is C02.',
    'C31': 'It composes two unbounded recursive functions (writer and parser) and asks for their composition to be the identity; '
           'deciding it needs induction with execution semantics. The per-character, per-kind and per-container parts that are '
           'statically decidable are C08 and C09.',
    'C32': 'It bounds a run-time cost over all inputs. No static resource analysis for Rust is available, and the parts that '
           'can be decided (recursion depth, termination) are C02 and C03.',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.RULES:
        r = registry.RULES[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + r.technique,
                       'level': registry.LEVEL.get(i, 'other'), 'level_note': r.note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check for it is not built yet.')})
hooks = {'guard': 'cfg(over_verif)', 'enable': 'the rustc driver of the checks passes --cfg=over_verif to the analysed crate (src/macro_uses.rs: one use of every form of the macros)', 'source_commits': ['136a1ad']}
json.dump({'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'hooks': hooks, 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
