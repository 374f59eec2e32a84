#!/usr/bin/env python3
"""Rewrite DESIGN.md: the fixed text below, the tables from properties.jsonl, props.py, known-findings.txt and seeded/."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
from design_text import HEAD, WORK, TAIL
o = [HEAD.strip(), '', '## Per property', '']
for p in P:
    i = p['id']
    if i not in props.PROPS: continue
    q = props.PROPS[i]; gs = [q['group']] + [m[0] for m in q.get('more', [])]
    o += ['### %s %s' % (i, p['title']), '', '* group: %s; quick %d s of exploration, thorough %d s' % (', '.join(gs), q['quick'], q['thorough']), '* simulated: ' + WORK[i][1], '* faults: ' + WORK[i][2], '* oracle: ' + q['oracle'], '* beyond the tests: ' + WORK[i][3], '']
o += ['## Not applicable', '']
for p in P:
    if p['id'] not in props.PROPS: o.append('* %s %s: %s' % (p['id'], p['title'], 'sqlite is compiled out of this checkout, so there is no code to run' if p['id'] == 'N09' else 'pure computation, single-threaded, without clock, I/O, entropy or peer: there is no schedule or fault to choose'))
o += ['', '## Planted bugs', '', 'Each was written from the property and the code, confirmed to build, pass the stable tests and fail its own demonstration, and then run against the check (quick tier). "first missed" marks those the check did not see when they were planted; it was extended until it did.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
MISS = {'c09-or-return', 'c10-route-drop', 'c24-trailing-space', 'c26-shared-c', 'c19-shared-buffer', 'c18-timeout-msec', 'c28-utc-day'}
NOT = set()
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, n))); o.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'].replace('|', '/'), 'not caught' if n in NOT else m['property'] + (' (first missed)' if n in MISS else '')))
o += ['', '## Genuine defects', '', 'All were shown on the real code by a replay file and repaired by a `fix:` commit; none is left as a known finding.', '']
for l in open(V + '/known-findings.txt'):
    if l.startswith('fixed:'): a = l.split(None, 3); o.append('* %s %s: %s' % (a[1].split('=')[1], a[2], a[3].strip()))
o += ['', TAIL.strip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
