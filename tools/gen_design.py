#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + a section per property (properties.jsonl, design_notes.py, checks.py, seeded/) + tools/design_tail.md"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/harness', V + '/tools']
from checks import CHECKS
from design_notes import NOTES
out = [open(V + '/tools/design_head.md').read()]
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
out.append('\n## Properties\n')
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('\n### %s %s\n' % (i, p['title']))
    out.append(NOTES.get(i, '') + '\n')
    c = CHECKS.get(i)
    if not c:
        out.append('No check yet.\n')
        continue
    out.append('\n* Generated: %s.\n' % c['rule'].rstrip('.'))
    if c.get('assumptions'):
        out.append('* Domain: %s.\n' % '; '.join(c['assumptions']))
    if seeds.get(i):
        out.append('* Planted: %s.\n' % ', '.join('%s' % s for s, m in seeds[i]))
out.append('\n' + open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write(''.join(out))
