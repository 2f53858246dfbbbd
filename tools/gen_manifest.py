#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the rules present"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from claims import TECH, NOTAPP  # noqa

checks = []
na = []
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(HERE + '/pyslint/rules/%s.py' % i.lower()) and \
            i not in NOTAPP:
        tech, note = TECH[i]
        checks.append({
            'property': i,
            'quick_cmd': './check.py %s' % i,
            'thorough_cmd': './check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': tech, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOTAPP.get(
            i, 'the static check for this property is not built yet')})
json.dump({
    'version': 1,
    'setup_cmd': 'python3 -m compileall -q pyslint check.py',
    'checks': checks, 'not_applicable': na,
    'notes': 'All checks are static analyses of the current source in '
    '/repo/pyslet (Python ast); nothing of the package is imported or '
    'run. See DESIGN.md.'},
    open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
