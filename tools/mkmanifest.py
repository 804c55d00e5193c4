#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from scen.registry import CHECKS

NA = {
    'C28': 'the compressor is the external C library Blosc, whose source is not in this repository; '
           'nothing of /repo can be encoded for it. It is an assumption of the other checks.',
    'C29': 'dtype descriptions are produced and parsed by numpy (C code) and ast.literal_eval; the repository '
           'adds two lines of glue, which C16 covers. The space of dtypes is numpy\'s, outside any encoding here.',
    'C30': 'threads live inside the Blosc C library (set_nthreads); the repository has no concurrent code '
           'to encode.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd='python3 check.py %s --tier quick' % i,
            thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the Python source with z3 deciding every assertion; '
                      'counterexamples replayed on the real code',
            level='model_checking',
            level_note='%s. Bounds: %s. Blosc, zlib, hashlib, json, numpy and the file system are '
                       'modelled by their contracts (DESIGN.md).' % (
                           c['covers'], '; '.join('%s: %s' % kv for kv in c['bounds'].items()))))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
