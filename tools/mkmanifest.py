#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import props
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': []}
for p in P:
    i = p['id']
    if i in props.CHECKS:
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 bin/check.py %s quick' % i,
            'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': props.META.get(i, (props.TECH, ''))[0] or props.TECH,
            'level': 'model_checking',
            'level_note': props.META.get(i, ('', props.NOTE))[1] or props.NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
