#!/usr/bin/env python3
"""writes DESIGN.md from properties.jsonl, explain.py, KNOWN_FINDINGS.md and design_notes.md"""
import json, sys, re
sys.path.insert(0, '.')
from gals.props import explain, WHERE
import mkmanifest_data as D
P = [json.loads(l) for l in open('properties.jsonl')]
notes = open('design_notes.md').read()
out = [notes.split('<!-- per property -->')[0].rstrip(), '', '## Per property', '']
for p in P:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    if i in WHERE:
        out.append(explain.RULES[i] + ' (`gals/props/%s.py`)' % WHERE[i])
        d = D.DETAIL.get(i)
        if d: out.append(d)
    else: out.append('Not applicable: ' + D.NA.get(i, 'check under construction'))
    out.append('')
import glob, os
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open('seeded_results.json')) if os.path.exists('seeded_results.json') else {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    i = f.split('/')[1]; m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), caught.get(i, '?')))
out.append(notes.split('<!-- per property -->')[1].strip().replace('SEEDTABLE', '\n'.join(rows)))
open('DESIGN.md', 'w').write('\n'.join(out) + '\n')
