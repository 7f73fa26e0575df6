#!/usr/bin/env python3
"""MANIFEST.json from checks/specs.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
import specs
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]
        modes = sorted({e['opts']['mode'] for e in s['entries']})
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i, evidence_file='evidence/%s.json' % i,
            technique=s.get('technique', 'symbolic execution of the compiled code (LLVM IR of /repo plus harness) with z3 (%s), counterexamples replayed natively' % ', '.join({'fp': 'IEEE bit-vectors', 'real': 'exact reals and polynomial normal forms'}[m] for m in modes)),
            level='model_checking',
            level_note='Every assertion is decided by the solver for all values of the symbolic inputs within: %s. Outside: %s. Trusted: the run time and pass in engine/, clang/LLVM 18, z3; undecided assertions and truncation are counted in the evidence and never reported as held.' % (s['bounds'], s.get('outside', 'anything larger than these bounds; rounding wherever arithmetic is exact reals'))))
    else:
        na.append(dict(property=i, reason=specs.NOT_APPLICABLE.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: harnesses reach private members by compiling the headers with private redefined. All evidence is rewritten on every run.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
