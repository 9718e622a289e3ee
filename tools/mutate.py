#!/usr/bin/env python3
"""Mutation testing of the checks: random one-line changes to /repo's sources
in scratch copies under /tmp/mut; those that compile and pass the repository's
tests are run against the checks of the properties their file belongs to.
Prints which check caught each, and the ones no check caught.  Development
tool; no check uses it.
usage: mutate.py SEED COUNT [file-regex]"""
import sys, os, re, random, subprocess, json, shutil, time
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
 'include/sparsematrix.hpp': 'C01 C02 C03 C04 C05 C06 C07 C09 C08 C12 C30 C31 C33 C38',
 'include/coomatrix.hpp': 'C10 C12 C01 C30 C33 C31 C38', 'include/lilmatrix.hpp': 'C11 C12 C01 C30 C33 C31 C38',
 'include/densematrix.hpp': 'C14 C15 C13 C16 C30 C33 C27 C38', 'src/densematrix.cpp': 'C13 C14 C15 C16 C03 C05 C30 C33 C27 C38',
 'include/vector.hpp': 'C17 C18 C27 C30 C33', 'include/vectorview.hpp': 'C17 C18 C27 C33', 'src/vectorview.cpp': 'C18 C27 C17 C38',
 'include/blockmatrix.hpp': 'C19 C30 C31 C33 C38', 'include/blockvector.hpp': 'C20 C30 C33', 'src/blockoperator.cpp': 'C20 C30 C31 C33', 'include/blockoperator.hpp': 'C20 C30 C31',
 'include/parser.hpp': 'C21 C22 C33', 'src/argparser.cpp': 'C23 C38', 'include/argparser.hpp': 'C23 C38',
 'include/solvers.hpp': 'C24 C25', 'src/solvers.cpp': 'C24 C25', 'src/eigensolver.cpp': 'C26', 'include/eigensolver.hpp': 'C26',
 'src/operator.cpp': 'C31 C30', 'include/operator.hpp': 'C31', 'src/timer.cpp': 'C32', 'include/utilities.hpp': 'C22 C21 C10 C18',
 'modules/partition/include/partition.hpp': 'C28', 'modules/sparsesolver/src/sparsesolve.cpp': 'C29',
 'modules/parlinalgcpp/src/hypre_ops.cpp': 'C36 C34 C37', 'modules/parlinalgcpp/src/parcommpkg.cpp': 'C36 C34', 'modules/parlinalgcpp/src/parmatrix.cpp': 'C36 C34 C37', 'modules/parlinalgcpp/src/paroperator.cpp': 'C36 C37', 'modules/parlinalgcpp/src/parsmoother.cpp': 'C37', 'modules/parlinalgcpp/src/parsolvers.cpp': 'C37', 'modules/parlinalgcpp/src/parutilities.cpp': 'C34 C36', 'modules/parlinalgcpp/src/parvector.cpp': 'C36',
}
PAR = 'parlinalgcpp'
SWAPS = [('Rows()', 'Cols()'), ('rows_', 'cols_'), ('begin', 'end'), ('lhs', 'rhs'), ('input', 'output'), ('row', 'col'), ('[i]', '[j]'), ('(i, j)', '(j, i)'), ('min', 'max'), ('&&', '||'), ('true', 'false')]
def muts(line):
    out = []
    c = line.split('//')[0]
    def sub(rx, rep):
        for m in re.finditer(rx, c): out.append(c[:m.start()] + m.expand(rep) + c[m.end():])
    sub(r'(?<=[\w\)\]]) < (?=[\w\(])', ' <= '); sub(r' <= ', ' < '); sub(r'(?<=[\w\)\]]) > (?=[\w\(])', ' >= '); sub(r' >= ', ' > ')
    sub(r' == ', ' != '); sub(r' != ', ' == '); sub(r' \+ ', ' - '); sub(r' - ', ' + '); sub(r' \* ', ' + '); sub(r' / ', ' * ')
    sub(r' \+= ', ' -= '); sub(r' \+= ', ' = '); sub(r' -= ', ' += '); sub(r' \*= ', ' = '); sub(r' \+ 1\b', ''); sub(r' - 1\b', '')
    sub(r'\b0\b(?![.x])', '1'); sub(r'\b1\b(?!\.)', '0'); sub(r'\b1\.0\b', '2.0'); sub(r'\b0\.0\b', '1.0'); sub(r'-1\b', '0')
    for a, b in SWAPS:
        ra, rb = [(r'\b' if re.match(r'\w', x) else '') + re.escape(x) + (r'\b' if re.match(r'\w', x[-1]) else '') for x in (a, b)]
        sub(ra, b.replace('\\', '')); sub(rb, a)
    if re.match(r'\s+[^{}]*;\s*$', c) and not re.match(r'\s*(return|using|int|double|T|auto|const|std::vector|for|friend|typedef|virtual|template)\b', c) : out.append(re.match(r'\s*', c).group() + ';')
    m = re.match(r'(\s*if \()(.*)\)\s*$', c)
    if m and m.group(2).count('(') == m.group(2).count(')'): out.append('%s!(%s))' % m.groups()); out.append('%sfalse)' % m.group(1)); out.append('%strue)' % m.group(1))
    m = re.match(r'(\s*)(break|continue);', c)
    return [o for o in out if o.rstrip() != c.rstrip()]
def candidates(rx):
    res = []
    for f in FILES:
        if not re.search(rx, f): continue
        L = open('/repo/' + f).read().split('\n'); incomment = False; func = '?'
        for n, l in enumerate(L):
            if '/*' in l: incomment = True
            if incomment:
                if '*/' in l: incomment = False
                continue
            m = re.match(r'^[A-Za-z].*?(\w+|operator\S*?)\s*\(', l) or re.match(r'^        [A-Za-z][\w:<>&\* ]* \*?&?(\w+|operator\S*?)\(.*\)', l)
            if m and not re.match(r'\s*(assert|for|if|while|return)\b', l): func = m.group(1)
            s = l.strip()
            if not l.startswith('    ') or s.startswith(('assert', '#', '//', 'template', 'std::cout', 'printf', 'throw', 'class ', 'static_assert', 'std::cerr')): continue
            if f.endswith('.hpp') and not l.startswith('    ' ) : continue
            for m in muts(l): res.append((f, n, func, m))
    return res
lock = threading.Lock(); harness = {}
def score(p, func):
    if p not in harness: harness[p] = open('%s/harness/%s.cpp' % (V, p.lower())).read()
    return len(re.findall(r'\b%s\b' % re.escape(func), harness[p]))
def sh(cmd, **k):
    try: return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(cmd, 124, '', '')
ROOT = '/tmp/mut'
B = '''cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_COMPILER=g++ -DLINALGCPP_ENABLE_METIS=ON -DLINALGCPP_ENABLE_SUITESPARSE=ON -DLINALGCPP_ENABLE_MPI=OFF -DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON >/dev/null && ninja -C _b -j4 && ctest --test-dir _b -j4 --timeout 30 --no-tests=error'''
pool = []
def one(job):
    k, (f, n, func, new) = job
    with lock: w = pool.pop()
    try:
        p = w + '/' + f; orig = open('/repo/' + f).read(); L = orig.split('\n'); old = L[n]; L[n] = new; open(p, 'w').write('\n'.join(L))
        tag = '%s:%d %s | %s -> %s' % (f, n + 1, func, old.strip(), new.strip())
        try:
            if PAR not in f:
                r = sh(B, cwd=w, timeout=300)
                if r.returncode: return ('compile' if 'ninja: build stopped' in r.stdout else 'tests'), tag
            props = sorted(FILES[f].split(), key=lambda q: -score(q, func)); tried = []
            for q in props:
                r = sh('python3 %s/driver/check.py %s --tier quick' % (V, q), env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1'), timeout=900)
                tried.append('%s=%d' % (q, r.returncode))
                if r.returncode == 1: return 'caught', tag + '   by ' + ' '.join(tried)
                if r.returncode != 0:
                    if 'error:' in r.stdout: return 'compile', tag
                    return 'NOANSWER', tag + ' ' + ' '.join(tried) + r.stdout[-400:]
            return 'MISSED', tag + '   tried ' + ' '.join(tried)
        finally: open(p, 'w').write(orig)
    finally:
        with lock: pool.append(w)
def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2]); rx = sys.argv[3] if len(sys.argv) > 3 else '.'
    c = candidates(rx); random.Random(seed).shuffle(c); print(len(c), 'candidates', flush=True); c = c[:count]
    W = int(os.environ.get('WORKERS', '3')); tagdir = '%s/%s' % (ROOT, os.getpid())
    for i in range(W):
        w = '%s/w%d' % (tagdir, i); os.makedirs(w); sh('git -C /repo archive HEAD | tar x -C %s; cd %s && git init -q; %s' % (w, w, B)); pool.append(w)
    tot = {}
    with ThreadPoolExecutor(W) as ex:
        for kind, tag in ex.map(one, enumerate(c)):
            tot[kind] = tot.get(kind, 0) + 1
            if kind not in ('compile', 'tests'): print(kind, tag, flush=True)
    print(tot, flush=True); shutil.rmtree(tagdir, ignore_errors=True)
main()
