#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (kept next to it so that the two never disagree)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
from props import PROPS, NA
V = os.path.dirname(here)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Every check stages /repo into a private scratch folder, compiles all translation units to LLVM IR there and analyses the IR; nothing is executed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
