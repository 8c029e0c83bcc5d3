#!/usr/bin/env python3
"""writes MANIFEST.json; run after adding a contract file or editing NA"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(HERE, 'tools', 'na.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    if p in NA:
        continue
    if not os.path.exists(os.path.join(HERE, 'contracts', p.lower() + '.py')):
        NA[p] = 'no contract written yet'
        continue
    checks.append({
        'property': p,
        'quick_cmd': 'python3-vt /verif/run.py %s --tier quick' % p,
        'thorough_cmd': 'python3-vt /verif/run.py %s --tier thorough' % p,
        'technique': 'contract-based deductive verification: pre/postconditions on the LLVM IR of the real functions, weakest-precondition style '
                     'obligations discharged by exact normal forms, z3 and cvc5',
        'level': LEVEL.get(p, 'proof'),
        'level_note': NOTE.get(p, DEFAULT_NOTE),
    })
m = {'version': 1, 'setup_cmd': 'python3-vt /verif/tools/selfcheck.py', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(m['not_applicable']), 'not applicable')
