#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks present in props/."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'C32': 'EigenFactors sources (EigenFactorPlane and its base) are commented out of the build at this commit and do not compile against the current headers, so there is no code of the built system to encode',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        m = importlib.import_module('props.' + i.lower())
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique=getattr(m, 'TECHNIQUE', 'symbolic execution of the compiled C++ (instrumented LLVM IR) + SMT (z3 over the reals)'),
            level=getattr(m, 'LEVEL', 'other'),
            level_note=getattr(m, 'LEVEL_NOTE', f'Every path of the encoded functions within the bounds ({m.BOUNDS}) is explored and each obligation is decided by the solver for all values on the path; counterexamples are replayed on the uninstrumented build. Doubles are modelled as reals (rounding not covered); trusts clang -O1, the IR rewriter and z3. Paths or obligations left open are counted in the evidence.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet: the symbolic harness for this part is not built')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='Each check rebuilds what it needs from /repo (content-addressed cache in .cache). See DESIGN.md.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
