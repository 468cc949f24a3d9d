#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = getattr(checks, 'NOT_APPLICABLE', {})
cs, na = [], []
for p in props:
    i = p['id']
    if hasattr(checks, i):
        cs.append({'property': i, 'quick_cmd': 'python3 run_check.py %s' % i, 'thorough_cmd': 'python3 run_check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'symbolic execution of the LLVM IR of the real code, assertions decided by z3' + (' (doubles as reals with rounding errors, QF_NRA with tangent refinement)' if i == 'C17' else ''), 'level': 'model_checking', 'level_note': checks.note(i)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': cs, 'not_applicable': na,
     'notes': 'engine/: symbolic executor for LLVM IR (own code, LLVM 18 C++ API for reading bitcode, z3 for deciding). harness/: drivers and oracles. No hooks in /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(cs), 'checks', len(na), 'not applicable')
