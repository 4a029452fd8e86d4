#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (so the two stay in step)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'meta'))
from props import PROPS, NA, HOOKS
with open(R + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NA: continue
    c = 'python3-vt qvc/driver.py ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': c, 'thorough_cmd': 'VERIF_TIER=thorough ' + c, 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('technique', 'contract-based deductive verification of the real code (qvc: weakest-precondition style VCs from the compiled LLVM IR, inductive loop invariants, discharged by z3/cvc5)'),
                   'level': 'proof', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q qvc >/dev/null 2>&1; true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'Engine: /verif/qvc. Contracts: /verif/contracts. No hooks in /repo. See DESIGN.md.'}
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
