#!/usr/bin/env python3
"""writes DESIGN.md from tools/DESIGN.in.md and the planted changes"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
S = os.path.join(V, 'seeded')
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    by = m.get('caught_by', m['property'])
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'], by))
t = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read().replace('@@SEEDS@@', '\n'.join(rows))
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
