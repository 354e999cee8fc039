#!/usr/bin/env python3
"""writes MANIFEST.json from units.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import units as U
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    us = [u for u in U.UNITS if p in u.props]
    if not us or p not in U.LEVELS:
        na.append(dict(property=p, reason=U.NA.get(p, 'not yet under contract'))); continue
    pr = sum(u.kind == 'proof' for u in us)
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
        evidence_file='evidence/%s.json' % p,
        technique=U.TECH.get(p, 'contract-based deductive verification of the real C code (CBMC contracts, unbounded)'),
        level=U.LEVELS[p], level_note=U.NOTES.get(p, '%d units proved for all inputs, %d bounded units; trusted: %s' % (pr, len(us) - pr, '; '.join(U.TRUSTED)))))
m = dict(version=1, setup_cmd='python3 -m py_compile check.py units.py && cbmc --version && goto-cc --version && gcc --version',
    checks=checks, not_applicable=na)
if U.HOOKS: m['hooks'] = U.HOOKS
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
