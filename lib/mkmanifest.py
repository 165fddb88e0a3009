#!/usr/bin/env python3
"""writes ../MANIFEST.json from lib/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(here + '/../properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'env VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', 'TLA+ specification: TLC model checking, TLC-generated behaviours replayed into the code, trace validation of the recorded execution'),
                       'level': c['level'], 'level_note': c.get('note', '')})
doc = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
       'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'check not built yet')} for i in ids if i not in PROPS],
       'notes': 'TLA+ (TLC). No hooks in /repo: all checks go through the public API, with an instrumented store (go/kvx) as injection point. Findings: KNOWN_FINDINGS.txt; design: DESIGN.md.'}
json.dump(doc, open(here + '/../MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in doc['not_applicable']])
