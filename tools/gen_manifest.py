#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from jobs import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('Holds for every value of the symbolic inputs within the bounds, decided path by path with z3 on the LLVM IR rustc generates from /repo. '
        'Bounds: %s %sTrusted: rustc to LLVM IR, the executor, z3; counterexamples and sampled path models are replayed on the compiled library.')
checks = [dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
               evidence_file='evidence/%s.json' % i,
               technique='symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3), native replay of counterexamples',
               level='model_checking',
               level_note=NOTE % (PROPS[i]['bounds'], ' '.join(PROPS[i]['assume']) + ' ' if PROPS[i]['assume'] else ''))
          for i in ids if i in PROPS]
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in PROPS],
         notes='No hooks in /repo: the harness crate in /verif/harness links it unchanged. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
