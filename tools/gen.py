#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""

import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE     # noqa: E402

ROOT = os.path.dirname(HERE)
checks = []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['tests'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mechanism']]},
        }) + '\n')
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py ' + p['id'],
        'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    })
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                           for p in NOT_APPLICABLE],
        'notes': 'No hooks: the checks read the sources of /repo and never '
                 'run them. See DESIGN.md.',
    }, fh, indent=1)
    fh.write('\n')
