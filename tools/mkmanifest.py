#!/usr/bin/env python3
"""Writes MANIFEST.json from vc/config.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vc import config
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
checks = []
na = []
for p in props:
    i = p['id']
    if i in config.CHECKS:
        c = config.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'technique': c.get('technique', 'contract-based deductive verification: function contracts and inferred inductive loop invariants on the compiled code of /repo, discharged by rewriting, congruence and SMT'),
                       'level': c.get('level', 'proof'),
                       'level_note': c.get('note', 'Postconditions of the functions named in the property, proved for all inputs and lengths on LLVM IR compiled from /repo on every run; callees through contracts that are proved in the same run. Trusts clang, the verifier in vc/, z3 and models of libstdc++ shared-library functions.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++-18 --version && cvc5 --version',
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks in /repo: contracts live in /verif/contracts and are linked with the code compiled from /repo.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
