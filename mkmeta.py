#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta.py (only properties with a check in checks.py are claimed)."""
import json, os
from meta import P, NOTES
from checks import PROPS
V = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['forall']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
        i = p['id']
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd='./run.py %s quick' % i, thorough_cmd='./run.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                technique=p['technique'], level=PROPS[i]['level'], level_note=p['note']))
        else:
            na.append(dict(property=i, reason=p.get('na', 'no check yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, notes=NOTES), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
