#!/usr/bin/env python3
"""Applies each seeded change to a scratch copy of /repo and runs the check of
its property (or all named by -c) against that copy.  Prints what was caught.
Used while developing; no check reads /verif/seeded."""
import sys, os, subprocess, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = [a for a in sys.argv[1:] if not a.startswith('-')]
tier = 'thorough' if '--thorough' in sys.argv else 'quick'
def one(i):
    d = os.path.join(V, 'seeded', i); prop = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/runseeds/' + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git apply %s/patch.diff' % (w, w, d), shell=True, check=True)
    t = time.time()
    r = subprocess.run(['python3', V + '/driver/check.py', prop, '--tier', tier], env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(w, ignore_errors=True)
    v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    return i, prop, r.returncode, time.time() - t, (v[:1] or r.stdout.strip().splitlines()[-3:])
ids = [i for i in sorted(os.listdir(V + '/seeded')) if os.path.exists(V + '/seeded/%s/patch.diff' % i) and (not want or any(i.startswith(x) for x in want))]
miss = []
with ThreadPoolExecutor(2) as ex:
    for i, p, rc, t, v in ex.map(one, ids):
        print('%-30s %s rc=%d %.0fs %s' % (i, p, rc, t, v), flush=True)
        if rc != 1: miss.append(i)
print('missed:', miss)
