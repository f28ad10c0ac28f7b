#!/usr/bin/env python3
"""Fills the generated part of DESIGN.md (table of properties, planted bugs) from properties.py, registry.py and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from properties import P
from registry import CHECKS
src = open(os.path.join(V, 'doc-design.in.md')).read()
t = ['## Property by property', '']
for p in P:
    c = CHECKS.get(p['id'])
    t.append('**%s %s.**' % (p['id'], p['title']))
    if c:
        t.append('Explored: ' + c['bounds'] + '.')
        if c.get('oracle'):
            t.append('Oracle: ' + c['oracle'] + '.')
        if c.get('assumptions'):
            t.append('Assumed: ' + '; '.join(c['assumptions']) + '.')
    t += ['Decision: ' + p['note'], 'Beyond the tests: ' + p['why'], '']
s = []
catch = os.path.join(V, 'bin', 'caught.json')
caught = json.load(open(catch)) if os.path.exists(catch) else {}
d = os.path.join(V, 'seeded')
names = sorted(os.listdir(d)) if os.path.isdir(d) else []
if names:
    s += ['| change | property | needs | caught by |', '|---|---|---|---|']
    for n in names:
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        s.append('| %s: %s | %s | %s | %s |' % (n, m['what_it_breaks'], m['property'], m['needs'], ', '.join(caught.get(n, ['?']))))
src = src.replace('@@TABLE@@', '\n'.join(t)).replace('@@SEEDED@@', '\n'.join(s))
open(os.path.join(V, 'DESIGN.md'), 'w').write(src)
