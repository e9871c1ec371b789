#!/usr/bin/python3
"""Regenerates MANIFEST.json from properties.jsonl and the table of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
sys.path.insert(0, V)
from tools.claims import CLAIMS, NOT_APPLICABLE
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'./check.py {i} --tier quick',
                           thorough_cmd=f'./check.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'check not built yet')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python tools/setup.py',
         checks=checks, not_applicable=na,
         notes='TLA+/TLC specifications in spec/, conformance drivers in harness/, see DESIGN.md. No hooks in /repo.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
