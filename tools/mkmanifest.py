#!/usr/bin/env python3
"""Write MANIFEST.json from the properties and the contract modules."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NA = {
    'C23': 'a relational property over two processes (hash seeds, set and '
           'map iteration order); no contract over one execution expresses '
           'it, and it does not hold on the base tree (see DESIGN.md)',
    'C24': 'the input is a triangle mesh processed by trimesh/shapely in '
           'floating point; there is no exact specification of the external '
           'facet grouping and slicing to verify against, and no verifier '
           'here reaches that code',
    'C25': 'quantifies over the whole floating-point-seeded pipeline and a '
           '3D solid; the component guarantees it rests on are C12, C13, '
           'C15-C18, but their composition into physical fit has no contract '
           'on any single function',
}
PROOF = 'contract-based deductive verification: contracts in /verif/' \
    'contracts on the functions of /repo, verification conditions generated ' \
    'from the current source by /verif/pyvc, discharged by z3/cvc5'
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    fn = os.path.join(HERE, 'contracts', pid.lower() + '.py')
    if pid in NA and not os.path.exists(fn):
        na.append({'property': pid, 'reason': NA[pid]})
        continue
    if not os.path.exists(fn):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('contracts.' + pid.lower())
    c = {'property': pid,
         'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % pid,
         'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % pid,
         'evidence_file': '/verif/evidence/%s.json' % pid,
         'technique': getattr(m, 'TECHNIQUE', PROOF),
         'level': m.LEVEL,
         'level_note': getattr(m, 'LEVEL_NOTE', 'every obligation generated '
                               'from the functions under contract is '
                               'discharged for all inputs; the run-time part '
                               'only searches for concrete failing inputs')}
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': na,
           'notes': 'See DESIGN.md. Every check reads /repo\'s current '
           'working tree (nothing is built); evidence is written to '
           '/verif/evidence.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
