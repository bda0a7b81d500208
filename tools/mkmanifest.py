#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the specs present"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NA = json.load(open(R + '/tools/not_applicable.json'))
NOTES = json.load(open(R + '/tools/level_notes.json'))
TECH = 'contract-based deductive verification: VCs generated from the LLVM IR of /repo\'s sources, discharged by z3/cvc5'
COMMON = 'All inputs, all paths, loops by inductive invariants; trusts the clang front end, the VC generator vf/, the SMT solvers and the contracts written for external functions. '
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    if not os.path.isdir(R + '/specs/' + i): continue
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, technique=TECH, level='proof',
                       level_note=COMMON + NOTES.get(i, '')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         hooks=dict(guard='none', enable='no hooks: the checks compile the sources of /repo unchanged', source_commits=[]))
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
