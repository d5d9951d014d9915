#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c.get('technique', 'property-based testing: generated cases against an explicit oracle, with shrinking'),
            'level': c.get('level', 'exploration'),
            'level_note': c.get('note', 'Random search: no violation among the generated cases. ') + ''.join(
                ' Assumes: ' + a + '.' for a in c.get('assumptions', []))})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
