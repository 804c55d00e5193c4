#!/usr/bin/env python3
"""Brings the bounds, job counts and the table of planted bugs in DESIGN.md up to date."""
import glob
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from scen.registry import CHECKS, jobs

p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
for i, c in sorted(CHECKS.items()):
    new = '*Bounds:* %s. ' % '; '.join('%s: %s' % kv for kv in c['bounds'].items())
    if c['assumes']:
        new += '*Assumes:* %s. ' % '; '.join(c['assumes'])
    new += 'Jobs: %d quick, %d thorough.' % (len(jobs(i, 'quick')), len(jobs(i, 'thorough')))
    s = re.sub(r'(?m)^(\*\*%s .*?)\*Bounds:\*.*? Jobs: .*$' % i, lambda m: m.group(1) + new, s)
rows = ['| planted bug | caught by | what it breaks |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'],
                                      m['what_it_breaks'].replace('|', '/')))
s = re.sub(r'(?s)<!-- seeds -->.*<!-- /seeds -->',
           lambda m: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s)
open(p, 'w').write(s)
