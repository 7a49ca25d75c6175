#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/claims.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import claims
ids = [json.loads(l)['id'] for l in open(os.path.join(H, '../properties.jsonl'))]
checks = []
for i in ids:
    if i in claims.CLAIMS:
        note = claims.CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification of the compiled IR (requires/ensures per operation, inferred and proved loop invariants, SMT)',
                       'level': 'proof', 'level_note': note})
na = [{'property': i, 'reason': claims.NA.get(i, 'no check built yet')} for i in ids if i not in claims.CLAIMS]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && clang++ --version >/dev/null && llvm-config-18 --version', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, '../MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'n/a')
