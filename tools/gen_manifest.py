"""Writes MANIFEST.json: one check per contract module; properties without a module go to not_applicable."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # property -> reason, for those that are genuinely out of reach
BASE = ('Verification conditions are generated on every run by executing the current /repo source on symbolic reals and '
        'discharged by exact normal forms, z3 and cvc5; loops of material models are cut by invariants. Trusted: the VC '
        'generator (vf/), the semantics of the torch/numpy calls it models (cross-checked against real torch on every '
        'case), real arithmetic in place of floating point. Obligations the verifier cannot decide are checked on sampled '
        'inputs of the real code, labelled bounded in the evidence and not counted as discharged.')
NOTE = {}
OTHER = set()
try:
    from manifest_notes import NOTE, OTHER, NA
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i,
                           thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique='contracts on the real functions, symbolic verification conditions, z3/cvc5',
                           level='other' if i in OTHER else 'proof', level_note=(NOTE.get(i, '') + ' ' + BASE).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract built yet')))
m = dict(version=1, setup_cmd='python3 run.py --selftest', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
