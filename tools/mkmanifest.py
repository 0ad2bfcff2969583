#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
from registry import CHECKS, NOT_APPLICABLE
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = 'deductive verification of the real sources against contracts (symbolic execution of /repo code over exact reals; obligations discharged by identity testing in prime fields, sign/interval reasoning and z3)'
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the sources are compiled unmodified over a symbolic number type (see DESIGN.md).'}
for p in P:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i, 'technique': c.get('technique', T), 'level': c.get('level', 'proof'), 'level_note': c.get('note', 'Every obligation generated from the current sources is discharged for all inputs in the stated domains; trusts the symbolic number type and engine in lib/, treats machine arithmetic as real arithmetic.')})
    else: m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No contract for it has been built yet.')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'claimed')
