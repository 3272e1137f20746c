#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

TECH = 'deterministic simulation with fault injection: '
CHECKS = json.load(open(os.path.join(ROOT, 'checks.json')))
NA = CHECKS.pop('not_applicable')
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [
        {'property': k, 'quick_cmd': 'python3 check.py %s --tier quick' % k,
         'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
         'evidence_file': 'evidence/%s.json' % k,
         'technique': TECH + v['technique'], 'level': v['level'],
         'level_note': v['note']}
        for k, v in sorted(CHECKS.items())],
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
