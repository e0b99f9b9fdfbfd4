#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
checks = json.load(open(os.path.join(V, 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(V, 'not_applicable.json'))) if os.path.exists(os.path.join(V, 'not_applicable.json')) else {}
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
    notes='Proof: govc (a contract verifier for go/ssa written for this task, /verif/govc) generates every obligation from /repo\'s current source and SMT solvers discharge them. Each check also runs a bounded component on the real code: it replays failures and covers, with a stated bound, the functions the verifier does not reach. No hooks are added to /repo; harness files enter through go -overlay. /repo carries only fix: commits, listed in KNOWN_FINDINGS.txt.')
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        m['checks'].append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i,
            technique=c.get('technique', 'contract-based deductive verification of the Go source (govc: per-function contracts and loop invariants over go/ssa, obligations discharged by z3/cvc5)'),
            level=c['level'], level_note=c.get('note', '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=na.get(i, 'No check is registered yet.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(m['checks']), 'claimed;', len(m['not_applicable']), 'not claimed')
