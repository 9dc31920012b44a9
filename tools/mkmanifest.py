#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DED = 'deductive verification: contracts over the LLVM IR of the real code, inferred-then-proved loop invariants, z3/cvc5'
# property -> (level, note)
L = {}
def proof(note): return ('proof', DED, note)
def bounded(note): return ('exploration', 'bounded stand-in (labelled): seeded differential search against the real code; no contract discharged yet', note)
SCANN = ('Every scanning operation is verified for all buffers, lengths and positions against its contract (%s); text buffers are modelled as byte functions over [0,E), '
         'comments and token classes by recursively defined specification functions whose laws are proved by induction on every run. '
         'Not under contract: read_fp, at_str, operator+, operator+= and smaller_end (bounded search only).')
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append(dict(property=i, reason=NA[i])); continue
    lv, tech, note = L[i]
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % i,
                       technique=tech, level=lv, level_note=note, evidence_file='evidence/%s.json' % i))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); import vc.tasks; print(z3.get_version_string())"', checks=checks, not_applicable=na,
         notes='No hooks in /repo. check.py PROPERTY compiles /repo\'s headers to LLVM IR, verifies the functions the property depends on, and runs a bounded harness that looks for a concrete failing input. check.py replay PROPERTY FILE replays a .case file.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
