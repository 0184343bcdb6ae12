"""Writes MANIFEST.json from properties.jsonl and mirvc/props.py (run after adding checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
from props import PROPS, INFO
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TH = {'FP': 'bit-precise float comparisons', 'S': 'a rounding-error model of the float arithmetic', 'R': 'idealised real arithmetic'}
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PROPS:
        na.append(dict(property=i, reason='no check built yet')); continue
    ths = sorted({u[1] for u in PROPS[i]})
    cmd = '/opt/veriftools/pyvenv/bin/python check.py ' + i
    note = INFO.get(i, {}).get('note') or ('Every obligation of the contracts is discharged by z3 for all inputs (%s), on verification conditions generated from the MIR '
        'that rustc builds from the current tree; contracts of core/std/nalgebra/ndarray/approx functions are assumed and listed in the evidence. '
        'A function that cannot be translated is decided by the bounded conformance harness instead and the evidence says so.') % ' and '.join(TH.get(t, t) for t in ths)
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, technique='contract-based deductive verification: function contracts, loop invariants and lemmas over the crate\'s MIR, discharged by z3',
                       level='proof', level_note=note))
m = dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the verifier reads the MIR rustc produces from the unmodified sources. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
