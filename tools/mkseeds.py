#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in seed_defs/*.py and
confirms each one in a scratch copy of /repo: the patch applies, the library
builds, the repository's tests pass, demo.sh exits 0 without it and nonzero
with it.  Not used by any check."""
import sys, os, subprocess, json, shutil, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
SCR = '/tmp/mkseeds'
def sh(cmd, cwd=None, env=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def load():
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seed_defs', '*.py'))):
        spec = importlib.util.spec_from_file_location('d', f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        seeds += m.SEEDS
    ids = [s['id'] for s in seeds]; assert len(ids) == len(set(ids)), 'duplicate ids'
    return seeds
DEMO = '''#!/bin/bash
# Run with the working directory at the repository; exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
g++ -std=c++11 -g -Iinclude %(inc)s"$here/demo.cpp" src/*.cpp %(src)s-o "$scratch/demo" %(libs)s-llapack -lblas || { rm -r "$scratch"; exit 3; }
(cd "$scratch" && timeout 120 ./demo > out.txt 2>&1)
status=$?
cat "$scratch/out.txt"
# a kernel that stops the process does not count as success
[ $status -eq 0 ] && ! grep -q '^demo finished$' "$scratch/out.txt" && status=4
rm -r "$scratch"
exit $status
'''
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <fstream>
#include <sstream>
#include "linalgcpp.hpp"
%s
using namespace linalgcpp;
#define CHECK(c) do { if (!(c)) { std::printf("wrong: %%s (line %%d)\\n", #c, __LINE__); return 1; } } while (0)
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1.0 + std::fabs(b)); }
int main()
{
%s
    std::printf("demo finished\\n");
    return 0;
}
'''
def write(s):
    d = os.path.join(OUT, s['id']); os.makedirs(d, exist_ok=True)
    inc = ''.join('-I%s ' % i for i in s.get('inc', []))
    src = ''.join('%s ' % i for i in s.get('src', []))
    libs = ''.join('%s ' % i for i in s.get('libs', []))
    open(os.path.join(d, 'demo.sh'), 'w').write(s.get('demo_sh') or DEMO % dict(inc=inc, src=src, libs=libs))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    if 'demo' in s: open(os.path.join(d, 'demo.cpp'), 'w').write(PRE % (s.get('headers', ''), s['demo'].strip('\n')))
    for n, t in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return d
def apply_edits(s, root):
    for f, old, new in s['edits']:
        p = os.path.join(root, f); t = open(p).read()
        n = s.get('nth', {}).get(f)
        if t.count(old) != 1: raise SystemExit('%s: %s: %d matches for %r' % (s['id'], f, t.count(old), old))
        open(p, 'w').write(t.replace(old, new))
def main():
    want = sys.argv[1:]
    bad = []
    for s in load():
        if want and s['id'] not in want: continue
        d = write(s)
        shutil.rmtree(SCR, ignore_errors=True); os.makedirs(SCR)
        sh('git -C /repo archive HEAD | tar x -C %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x' % SCR, cwd=SCR)
        r0 = sh('bash %s/demo.sh' % d, cwd=SCR)
        apply_edits(s, SCR)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', cwd=SCR).stdout)
        r1 = sh('bash %s/demo.sh' % d, cwd=SCR)
        # build and test with the change, as the repository does
        rb = sh('mkdir -p _b && cd _b && (%s)' % BUILD, cwd=SCR)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and rb.returncode == 0
        print('%-28s %s without=%d with=%d build+test=%d %s' % (s['id'], 'ok ' if ok else 'BAD', r0.returncode, r1.returncode, rb.returncode, r1.stdout.strip().splitlines()[-1:] ), flush=True)
        if not ok:
            bad.append(s['id'])
            if r0.returncode: print(r0.stdout[-1500:])
            if r1.returncode == 3: print(r1.stdout[-1500:])
            if rb.returncode: print(rb.stdout[-1500:])
    shutil.rmtree(SCR, ignore_errors=True)
    print('bad:', bad)
BUILD = '''cmake -S .. -B . -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_COMPILER=g++ -DLINALGCPP_ENABLE_METIS=ON -DLINALGCPP_ENABLE_SUITESPARSE=ON -DLINALGCPP_ENABLE_MPI=OFF -DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON && ninja -j8 && ctest -j8 --timeout 300 --no-tests=error'''
main()
