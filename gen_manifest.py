#!/usr/bin/env python3
"""Write MANIFEST.json from specs.py and properties.jsonl."""
import json, os
from specs import SPECS
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'explicit-state model checking of the real code: exhaustive enumeration of the bounded choice tree (operations, answers, faults, states) against an independent reference model'
NOTE = 'Exhaustive within the stated bound, on the real library (no abstraction): %s. %sTrusts the reference model of the harness, the compiler and Eigen.'
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p not in SPECS:
        na.append(dict(property=p, reason='no check yet (planned: see DESIGN.md)'))
        continue
    s = SPECS[p]
    a = s.get('assumptions', [])
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                       technique=s.get('technique', TECH), level='model_checking',
                       level_note=NOTE % (s['bound'], ''.join('Assumes ' + x + '. ' for x in a))))
m = dict(version=1, setup_cmd='python3 -c "import specs" && g++ --version > /dev/null', checks=checks, not_applicable=na,
         notes='Checks rebuild the library sources of /repo out of tree; no hooks in /repo are needed. DESIGN.md explains the method.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
