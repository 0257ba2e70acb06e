"""Rewrites the table between the markers of DESIGN.md."""
import collections
import glob
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from design_src import D

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS, NA = {}, {}
exec(open(R + '/tools/claims_src.py').read())
bugs = collections.defaultdict(list)
for d in sorted(glob.glob(R + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    bugs[m['property']].append(os.path.basename(d[:-1]))
out = []
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in D:
        what, bounds, cost = D[i]
        out.append('### %s: %s\n\n%s\n\n* method: %s\n* bounds: %s; cost: %s\n* planted bugs caught: %s\n' % (
            i, p['title'], what, CLAIMS[i][0], bounds, cost, ', '.join('`%s`' % b for b in bugs[i]) or 'none kept'))
    else:
        out.append('### %s: %s\n\nNot applicable: %s\n' % (i, p['title'], NA[i]))
fn = R + '/DESIGN.md'
t = open(fn).read()
a, b = '<!-- properties -->\n', '<!-- end -->\n'
t = t[:t.index(a) + len(a)] + '\n'.join(out) + t[t.index(b):]
open(fn, 'w').write(t)
