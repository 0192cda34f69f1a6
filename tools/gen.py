#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/registry.py and tools/not_applicable.json."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'mc'))
from registry import CHECKS
na = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    def line(p, c):
        assert len(c['title']) <= 80, (p, len(c['title']))
        f.write(json.dumps({
            'id': p, 'title': c['title'], 'statement': c['statement'],
            'quantifier': {'over': c['over'], 'text': c['quantifier']}, 'why_tests_cant': c['why'],
            'anchors': {'files': c['files'], 'mechanism': [{'name': n, 'where': w} for n, w in c['mechanism']]}}) + '\n')
    for p in sorted(CHECKS):
        line(p, CHECKS[p])
    for c in na:
        line(c['property'], c)
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': p, 'quick_cmd': 'python3 mc/run.py ' + p,
                 'thorough_cmd': 'VERIF_TIER=thorough python3 mc/run.py ' + p,
                 'technique': c['technique'], 'level': c['level'], 'level_note': c['note']} for p, c in sorted(CHECKS.items())],
     'not_applicable': [{'property': c['property'], 'reason': c['reason']} for c in na]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
