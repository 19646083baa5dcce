#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', 'stateless model checking of the real code: exhaustive bounded '
                                          'enumeration against a reference model'),
                       'level': 'model_checking',
                       'level_note': c.get('note', 'Exhaustive within the stated bounds; trusts the reference model in '
                                           'the harness, the compiler and the sanitizers.')})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'run.py builds harnesses from /repo at check time; DESIGN.md describes bounds and oracles.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
