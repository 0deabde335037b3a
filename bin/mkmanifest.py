#!/usr/bin/env python3
"""write MANIFEST.json from the table below"""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: symbolic execution of the real functions against contracts, obligations discharged by term normal forms and z3'
NOTES = json.load(open(os.path.join(VERIF, 'bin', 'claims.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = NOTES.get(p)
    if c and c.get('note'):
        d = {'property': p, 'quick_cmd': 'python3-vt bin/check.py %s quick' % p, 'thorough_cmd': 'python3-vt bin/check.py %s thorough' % p,
             'technique': TECH, 'level': c.get('level', 'proof'), 'level_note': c['note']}
        checks.append(d)
    else:
        na.append({'property': p, 'reason': (c or {}).get('reason', 'contracts for this property are not built yet')})
doc = {'version': 1, 'setup_cmd': 'python3-vt bin/setup.py', 'checks': checks, 'not_applicable': na,
       'notes': 'engine/: the verifier; contracts/: the specifications; replay/: run-time contract checks on the real code (bounded, for replay). See DESIGN.md.'}
json.dump(doc, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
