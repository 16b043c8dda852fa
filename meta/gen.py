#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py and po/registry.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from meta import props
from po import registry
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for i, title, st, over, qt, why, files, mech in props.PROPS + props.NA_PROPS:
        assert len(title) <= 80, (i, len(title))
        f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
                            'anchors': {'files': sorted(set(files)), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}) + '\n')
na = dict(props.NOT_APPLICABLE)
ids = [p[0] for p in props.PROPS + props.NA_PROPS]
checks = []
for i in ids:
    if i in registry.RULES:
        checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': registry.TECH.get(i, registry.DEFAULT_TECH), 'level': 'other', 'level_note': registry.NOTE})
    elif i not in na:
        na[i] = 'no check has been built for it yet'
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': r} for i, r in na.items()],
     'notes': 'Static analysis only: a clang LibTooling extractor plus a path-sensitive abstract interpreter and rules over its results; see DESIGN.md.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
