#!/usr/bin/env python3
"""writes MANIFEST.json from specs/registry.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    c = registry.PROPS.get(i)
    if not c:
        na.append(dict(property=i, reason=registry.NA.get(i, 'not yet under contract')))
        continue
    checks.append(dict(
        property=i, quick_cmd='./check %s' % i, thorough_cmd='VERIF_TIER=thorough ./check %s --thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique=c.get('technique', 'contract-based deductive verification: VCs generated from the LLVM IR of /repo, discharged by z3'),
        level=c.get('level', 'proof'),
        level_note=c.get('note', 'All obligations of the contracts are discharged for all inputs; trusts the VC generator, clang, z3 '
                         'and the assumed library contracts listed in the evidence.')))
m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
         notes='See DESIGN.md. One entry point: ./check <id>; the evidence level falls back to exploration when a proof gives no answer.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
