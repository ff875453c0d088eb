#!/usr/bin/env python3
# mkdetection.py LOG: DETECTION.md from lines "<seed> <check> rc=<n> <violations> <first message>"
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        w = l.rstrip('\n').split(' ', 4)
        if len(w) >= 4 and w[2].startswith('rc='): seen[w[0]] = (w[1], w[2], (w[4] if len(w) > 4 else '').strip())
out = ['# Planted bugs and the checks that catch them', '',
       'Each line is one run of the quick check of the property against the tree with that bug', '(VERIF_SEED=1); the last column is the first thing it reported.', '',
       '| bug | check | outcome | what it needs | reported |', '|---|---|---|---|---|']
clean = lambda s: ''.join(c if 32 <= ord(c) < 127 else '?' for c in s).replace('|', '/').strip()
n = c = 0
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    k, rc, msg = seen.get(s, (m['property'], 'rc=?', ''))
    n += 1; c += rc == 'rc=1'
    out.append('| %s | %s | %s | %s | %s |' % (s, k, {'rc=1': 'caught', 'rc=0': 'missed'}.get(rc, 'not run'), clean(m['needs']), clean(msg)[:110]))
r = sum('rc=' in v[1] for v in seen.values()); out += ['', '%d of the %d run in this log caught; %d in all.' % (c, r, n)]
open(V + '/DETECTION.md', 'w').write('\n'.join(out) + '\n')
print(out[-1])
