#!/usr/bin/env python3
"""Put DESIGN.md together."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + '/tools/design/'
rd = lambda f: open(f).read()
notes = dict(l.split('|', 1) for l in rd(D + 'notes.txt').splitlines() if '|' in l)
cost = dict(re.findall(r'^(C\d+) .*?wall=([\d.]+)s', rd(D + 'cost.txt'), re.M)) if os.path.exists(D + 'cost.txt') else {}
caught = dict(l.split() [:2] for l in rd(D + 'caught.txt').splitlines() if l.strip()) if os.path.exists(D + 'caught.txt') else {}
out = [rd(D + 'head.md'), '## Properties\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(notes.get(i, '') + '\n')
    h = V + '/harness/%s.cpp' % i.lower()
    if os.path.exists(h):
        s = rd(h)
        for k, t in (('bounds', 'Bounds'), ('assume', 'Assumed'), ('outside', 'Outside')):
            x = re.findall(r'^//@ %s (.*)$' % k, s, re.M)
            if x: out.append('*%s:* %s.\n' % (t, '; '.join(x)))
        r = len(re.findall(r'^//@ run ', s, re.M)); t = len(re.findall(r'^//@ thorough ', s, re.M))
        out.append('*Cost:* %d run lines (thorough %d more)%s.\n' % (r, t, ', quick %.0f s on 8 cores' % float(cost[i]) if i in cost else ''))
out.append('## Defects found in linalgcpp and repaired\n\nEach was a violation reported by a check on the original tree; each repair is one `fix:` commit in /repo (KNOWN_FINDINGS.jsonl has the commits).\n\n| property | what failed | repair |\n|---|---|---|')
for l in rd(V + '/tools/fixes.txt').splitlines():
    if l.count('|') == 2:
        s, p, w = l.split('|'); out.append('| %s | %s | %s |' % (p, w, s))
out.append('\n## Planted bugs\n\nWritten from the property and the code; each compiles, passes the existing tests and has a demonstration (seeded/<id>/).\n\n| id | property | needs | caught by |\n|---|---|---|---|')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    out.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'], caught.get(i, '?')))
out.append(rd(D + 'tail.md'))
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
