#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from registry.py and
checks.py (which lists the properties that have a check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import P                                     # noqa: E402
from claims import CLAIMS, NOT_APPLICABLE, NOTES            # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')

checks = []
ids = {p['id'] for p in P}
for pid in sorted(CLAIMS):
    assert pid in ids
    note, tech = CLAIMS[pid]
    checks.append(dict(property=pid,
                       quick_cmd='./check %s' % pid,
                       thorough_cmd='./check %s --thorough' % pid,
                       technique=tech, level='model_checking',
                       level_note=note))
na = []
for p in P:
    if p['id'] not in CLAIMS:
        na.append(dict(property=p['id'],
                       reason=NOT_APPLICABLE.get(
                           p['id'], 'check not built yet')))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks,
           not_applicable=na, notes=NOTES)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
