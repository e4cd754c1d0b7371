#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS and os.path.exists(os.path.join(V, 'harness', CHECKS[i]['src'][0])):
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
            'technique': c.get('technique', 'stateless model checking of the real code: exhaustive bounded enumeration of inputs and operation histories, lockstep comparison with a reference model'),
            'level': 'model_checking',
            'level_note': c.get('note', 'Exhaustive within the bounds listed in the evidence file (every choice sequence is executed on code rebuilt from the tree, under AddressSanitizer unless noted); trusts the reference model in the harness, the compiler and the system libraries (GSL, HDF5, libpng).')})
    else: na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo; only fix: commits. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
