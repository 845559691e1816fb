#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique='property-based testing: ' + c['technique'] + ('' if c.get('python') else '; thorough: also coverage-guided fuzzing (libFuzzer) of the generator'), level=c['level'],
                           level_note=c['note'] + ' Assumes: ' + ' '.join(c.get('assumptions', []))))
na = [dict(property=i, reason='No check built yet.') for i in ids if i not in CHECKS]
d = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the harness uses the public API, the structure fields the project\'s own tests use, and its own NAND layer.')
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not claimed')
