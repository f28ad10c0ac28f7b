#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/properties.py and bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from properties import P
from registry import CHECKS
import registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], hook_needed=p['hook']))) + '\n')
checks, na = [], []
for p in P:
    if p['id'] in CHECKS:
        avr = any(e.get('kind') == 'avr' for e in CHECKS[p['id']]['explorers'])
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'], thorough_cmd='bin/check %s thorough' % p['id'],
            technique='bounded exhaustive exploration of the compiled firmware on an instruction-level AVR model, against a reference model' if avr else
                      'bounded exhaustive (stateless) exploration of the real code, every execution compared with a reference model',
            level='model_checking', level_note=p['note'] + ' Bounds: ' + CHECKS[p['id']]['bounds'] + '.'))
    else:
        na.append(dict(property=p['id'], reason=registry.NOT_APPLICABLE.get(p['id'], 'no check built yet')))
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])
