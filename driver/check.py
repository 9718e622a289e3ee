#!/usr/bin/env python3
"""Run the solver-based check of one property.

  check.py C02 [--tier quick|thorough] [--keep] [--only ENTRY] [--repo DIR]

Compiles the library's current sources and the property's harness to LLVM bitcode, executes every
configured harness run symbolically (engine/lsym), replays every counterexample on a native build
of the same sources, and writes evidence/<id>.json.
"""
import sys, os, re, json, time, subprocess, hashlib, fcntl, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
BUILD = os.path.join(V, 'build')
CLANG = ['clang++', '-std=c++11', '-O1', '-g', '-emit-llvm', '-c', '-w', '-fno-vectorize', '-fno-slp-vectorize',
         '-fno-unroll-loops', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DLINALGCPP_VERIF_SYMBOLIC']
GXX = ['g++', '-std=c++11', '-O1', '-g1', '-w', '-ffp-contract=off', '-DLINALGCPP_VERIF_NATIVE']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=address', '-fno-omit-frame-pointer']
SANU = ['-fno-sanitize=alignment,float-divide-by-zero,vptr,null,nonnull-attribute,pointer-overflow']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class ToolError(Exception):
    pass

def engine():
    """Build the engine unless a build of exactly these sources exists."""
    srcs = sorted(os.path.join(V, 'engine', f) for f in os.listdir(os.path.join(V, 'engine')) if f.endswith(('.hpp', '.cpp')))
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, 'rb').read())
    d = os.path.join(BUILD, 'engine')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'lsym-' + h.hexdigest()[:16])
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            r = sh(['g++', '-std=c++17', '-O2', '-fno-rtti', '-I/usr/include/llvm-18', '-I/usr/lib/llvm-18/include',
                    os.path.join(V, 'engine', 'lsym.cpp'), '-o', tmp, '/usr/lib/llvm-18/lib/libLLVM-18.so', '-lz3', '-lgmpxx', '-lgmp'])
            if r.returncode:
                raise ToolError('engine build failed:\n' + r.stderr[:4000])
            os.rename(tmp, out)
    return out

def directives(prop):
    src = os.path.join(V, 'harness', prop.lower() + '.cpp')
    d = {'src': src, 'run': [], 'thorough': [], 'link': [], 'repo': None, 'inc': [], 'bounds': [], 'assume': [], 'outside': [], 'flags': [], 'nflags': [], 'replays': 1}
    for l in open(src):
        m = re.match(r'//@\s*(\w+)\s+(.*)$', l.strip())
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ('run', 'thorough'):
            d[k].append(v.split())
        elif k in ('bounds', 'assume', 'outside'):
            d[k].append(v)
        elif k == 'replays':
            d[k] = int(v)   # the real build draws random numbers: any of that many runs may fail
        elif k == 'repo':
            d['repo'] = v.split()
        elif k in ('link', 'inc', 'flags', 'nflags'):
            d[k] += v.split()
        else:
            raise ToolError('unknown directive ' + k)
    return d

def expand(run, seed):
    """'entry p1 p2 [t=60] [key=val]' -> (entry, params, opts); S<k> is a parameter derived from VERIF_SEED, a..b a range."""
    entry, opts, ps = run[0], {}, [[]]
    for tok in run[1:]:
        if '=' in tok:
            k, v = tok.split('=', 1); opts[k] = v; continue
        vals = []
        for part in tok.split(','):
            m = re.match(r'^(S?)(-?\d+)(?:\.\.(-?\d+))?$', part)
            if not m:
                raise ToolError('bad parameter ' + tok)
            lo, hi = int(m.group(2)), int(m.group(3) or m.group(2))
            for x in range(lo, hi + 1):
                vals.append(seed * 1000 + x + 1 if m.group(1) else x)
        ps = [p + [v] for p in ps for v in vals]
    return [(entry, p, dict(opts)) for p in ps]

def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    if prop == '--setup':
        print(engine()); return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = False
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--only': only = a.pop(0)
        elif x == '-v': verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1') or '1') % 100000
    t0 = time.time()
    D = directives(prop)
    runs = []
    for r in D['run'] + (D['thorough'] if tier == 'thorough' else []):
        runs += expand(r, seed)
    if only:
        runs = [r for r in runs if r[0] in only.split(',')]
    alt = '' if REPO == '/repo' else '-' + hashlib.md5(REPO.encode()).hexdigest()[:6]
    bd = os.path.join(BUILD, prop + '-' + tier + alt)
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    pool = cf.ThreadPoolExecutor(JOBS)
    feng = pool.submit(engine)
    reposrc = sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
    if D['repo']:
        reposrc = []
        for p in D['repo']:
            if p == 'src':
                reposrc += sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
            else:
                reposrc.append(os.path.join(REPO, p))
    incs = ['-I' + V + '/' + i[1:].lstrip('/') if i.startswith('@') else '-I' + os.path.join(REPO, i) if not i.startswith('/') else '-I' + i for i in D['inc']]
    common = incs + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'harness'), '-I' + os.path.join(V, 'stubs')] + D['flags']
    links = [os.path.join(V, 'stubs', x + '.cpp') for x in ['lapack', 'rnd'] + D['link']]
    # ---- symbolic bitcode
    def bc(src, extra=()):
        out = os.path.join(bd, os.path.basename(src) + '.' + hashlib.md5(src.encode()).hexdigest()[:6] + '.bc')
        r = sh(CLANG + list(extra) + ['-I' + os.path.join(V, 'stubs', 'include'), '-I' + os.path.join(V, 'stubs', 'rndmodel')] + common + [src, '-o', out])
        if r.returncode:
            raise ToolError('compiling %s for symbolic execution failed:\n%s' % (src, r.stderr[:6000]))
        return out
    fb = [pool.submit(bc, os.path.join(V, 'stubs', 'runtime.cpp'), ['-fno-builtin'])] + [pool.submit(bc, s) for s in reposrc + links + [D['src']]]
    bcs = [f.result() for f in fb]
    allbc = os.path.join(bd, 'all.bc')
    r = sh(['llvm-link'] + bcs + ['-o', allbc])
    if r.returncode:
        raise ToolError('llvm-link failed:\n' + r.stderr[:4000])
    lsym = feng.result()
    # ---- native builds (started now, used when needed)
    npool = cf.ThreadPoolExecutor(JOBS)
    def native(tag, flags):
        d = os.path.join(bd, tag); os.makedirs(d, exist_ok=True)
        def obj(src):
            out = os.path.join(d, os.path.basename(src) + '.' + hashlib.md5(src.encode()).hexdigest()[:6] + '.o')
            r = sh(GXX + flags + common + ['-c', src, '-o', out])
            if r.returncode:
                raise ToolError('native compile of %s failed:\n%s' % (src, r.stderr[:6000]))
            return out
        objs = list(npool.map(obj, [os.path.join(V, 'native', 'native.cpp')] + reposrc + links + [D['src']]))
        exe = os.path.join(d, 'native')
        r = sh(['g++', '-rdynamic'] + flags + objs + ['-o', exe, '-ldl'] + D['nflags'])
        if r.returncode:
            raise ToolError('native link failed:\n' + r.stderr[:4000])
        return exe
    npool2 = cf.ThreadPoolExecutor(2)
    fnat = npool2.submit(native, 'asan', SAN + SANU)
    # ---- symbolic runs
    scale = float(os.environ.get('VERIF_TIMESCALE', '1'))
    # the quick tier ends in time whatever the code does: what is left out is listed as incomplete
    budget = float(os.environ.get('VERIF_BUDGET', '560' if tier == 'quick' else '1e9')); found = []
    def one(run):
        entry, params, opts = run
        t = float(opts.get('t', 60)) * scale
        left = (budget if not found else budget * 0.4) - (time.time() - t0)
        if left < 2: return run, subprocess.CompletedProcess([], -9, '', ''), 'out of time'
        t = min(t, left)
        cmd = [lsym, allbc, '--entry', entry, '--timeout', str(t), '--samples', opts.get('samples', '2')]
        for p in params: cmd += ['--param', str(p)]
        if 'inst' in opts: cmd += ['--inst-limit', opts['inst']]
        if 'paths' in opts: cmd += ['--max-paths', opts['paths']]
        if 'qms' in opts: cmd += ['--query-ms', opts['qms']]
        if opts.get('leak') == '0': cmd += ['--no-leak']
        try:
            r = sh(cmd, timeout=min(t * 2 + 120, left + 60))
        except subprocess.TimeoutExpired as e:
            # what it found so far still counts; the run is listed as incomplete
            out = e.stdout.decode(errors='replace') if isinstance(e.stdout, bytes) else e.stdout or ''
            return run, subprocess.CompletedProcess(cmd, -9, out, ''), 'engine timeout'
        if '\nVIOL ' in '\n' + r.stdout: found.append(1)
        return run, r, None
    order = sorted(range(len(runs)), key=lambda i: -float(runs[i][2].get('t', 60)))
    res = [None] * len(runs)
    futs = {pool.submit(one, runs[i]): i for i in order}
    for f in cf.as_completed(futs):
        res[futs[f]] = f.result()
    tot = {}; viols = []; samples = []; covers = {}; funcs = set(); abandon = {}; errors = []; perrun = []; incomplete = []
    for (entry, params, opts), r, err in res:
        label = entry + '(' + ','.join(map(str, params)) + ')'
        if err in ('engine timeout', 'out of time'):
            for l in r.stdout.splitlines():
                if l.startswith('VIOL '): viols.append((entry, params, json.loads(l[5:])))
            incomplete.append(label); perrun.append({'run': label, 'complete': False, 'stopped': 'the engine did not end in time' if err == 'engine timeout' else 'not started: the time for this check was used up'}); continue
        if err or r.returncode not in (0, 1):
            errors.append('%s: %s' % (label, err or ('engine exit %d: %s' % (r.returncode, (r.stderr or '')[-600:])))); continue
        st = None
        for l in r.stdout.splitlines():
            if l.startswith('VIOL '): viols.append((entry, params, json.loads(l[5:])))
            elif l.startswith('SAMPLE '): samples.append((entry, params, json.loads(l[7:])))
            elif l.startswith('STATS '): st = json.loads(l[6:])
        if st is None:
            errors.append(label + ': no statistics'); continue
        covers.setdefault(entry, set()).update(st['covers'])
        funcs.update(st['functions'])
        for k, n in st['abandon'].items(): abandon[k] = abandon.get(k, 0) + n
        for k, v in st.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                tot[k] = max(tot.get(k, 0), v) if k.startswith('max_') else tot.get(k, 0) + v
        if not st['complete']: incomplete.append(label)
        perrun.append({'run': label, 'complete': st['complete'], 'paths': st['paths'], 'checks': st['checks'], 'queries': st['queries'], 'wall_s': round(st['wall'], 2), 'abandoned': st['abandoned'], 'undecided': st['undecided']})
    if errors:
        for e in errors: print('ERROR', e)
    nat = fnat.result()
    # ---- replay counterexamples
    rdir = os.path.join(BUILD, 'replays'); os.makedirs(rdir, exist_ok=True)
    def write_inputs(path, entry, params, inputs):
        with open(path, 'w') as f:
            f.write('@entry %s\n' % entry)
            for p in params: f.write('@param %d\n' % p)
            for it in inputs: f.write('%s %s\n' % (it[0], it[2]))
    vgexe = [None, None]; vgruns = {}
    def replay(path, kind, key=None):
        env = dict(os.environ, SYM_STRICT='1')
        try:
            r = sh([nat, '--inputs', path], timeout=90, env=env, cwd=bd)
        except subprocess.TimeoutExpired:
            return True, 'does not terminate'
        out = r.stdout + r.stderr
        if r.returncode != 0:
            m = re.search(r'^FAIL (.*)$', out, re.M) or re.search(r'(ERROR: AddressSanitizer:.*)', out) or re.search(r'(runtime error:.*)', out)
            return True, (m.group(1) if m else 'exit %d %s' % (r.returncode, out[-200:]))
        if 'runtime error:' in out:
            return True, re.search(r'(runtime error:.*)', out).group(1)
        if kind in ('undefined', 'memory'):
            # memory never written holds a pattern: the real build goes wrong with it
            if vgexe[1] is None:
                vgexe[1] = native('pat', ['-O0', '-ftrivial-auto-var-init=pattern'])
            try:
                r = sh([vgexe[1], '--inputs', path], timeout=90, env=dict(env, MALLOC_PERTURB_='165'), cwd=bd)
            except subprocess.TimeoutExpired:
                return True, 'does not terminate when uninitialised memory holds a pattern'
            if r.returncode != 0:
                m = re.search(r'^FAIL (.*)$', r.stdout + r.stderr, re.M)
                return True, 'uninitialised memory holding a pattern: ' + (m.group(1) if m else 'exit %d %s' % (r.returncode, (r.stdout + r.stderr)[-200:]))
            vgruns[key] = vgruns.get(key, 0) + 1
            if vgruns[key] > 3: return False, ''
            if vgexe[0] is None:
                vgexe[0] = native('vg', ['-O0'])
            try:
                r = sh(['valgrind', '-q', '--error-exitcode=9', '--undef-value-errors=yes', vgexe[0], '--inputs', path], timeout=200, cwd=bd)
            except subprocess.TimeoutExpired:
                return False, ''
            if r.returncode == 9 or r.returncode == 7:
                m = re.search(r'==\d+== (.*)', r.stderr)
                return True, 'valgrind: ' + (m.group(1) if m else '')
        return False, ''
    known = []
    kf = os.path.join(V, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(kf):
        known = [json.loads(l) for l in open(kf) if l.strip() and not l.startswith('#')]
        known = [k for k in known if k['property'] == prop and k.get('status', 'known') == 'known']
    reported, knownseen, unconfirmed, seen = [], [], [], {}
    for n, (entry, params, v) in enumerate(viols):
        if reported and time.time() - t0 > budget: break
        key = (entry, v['kind'], v['msg'])
        if seen.get(key, 0) >= 2: continue
        path = os.path.join(rdir, '%s-%s%s-%d.txt' % (prop, tier, alt, n))
        write_inputs(path, entry, params, v['inputs'])
        for _ in range(D['replays']):
            ok, how = replay(path, v['kind'], key)
            if ok: break
        if not ok:
            unconfirmed.append({'entry': entry, 'params': params, 'kind': v['kind'], 'msg': v['msg'], 'where': v.get('where')})
            print('UNCONFIRMED (not reproduced natively) %s %s: %s at %s' % (entry, v['kind'], v['msg'], v.get('where')))
            continue
        seen[key] = seen.get(key, 0) + 1
        kk = [k for k in known if k['entry'] == entry and re.search(k['match'], v['kind'] + ': ' + v['msg'])]
        rec = {'entry': entry, 'params': params, 'kind': v['kind'], 'msg': v['msg'], 'where': v.get('where'), 'native': how, 'replay': path}
        if kk:
            knownseen.append(kk[0]); continue
        reported.append(rec)
    # ---- sampled paths: the native run must log what the symbolic execution predicts
    validated, mismatch, tried = 0, [], 0
    def valid(i):
        entry, params, s = samples[i]
        path = os.path.join(bd, 'sample-%d.txt' % i)
        write_inputs(path, entry, params, s['inputs'])
        try:
            r = sh([nat, '--inputs', path], timeout=120, cwd=bd)
        except subprocess.TimeoutExpired:
            return i, 'native timeout'
        logs = [l[4:].split('\t') for l in r.stdout.splitlines() if l.startswith('LOG ')]
        if r.returncode: return i, 'native exit %d: %s' % (r.returncode, (r.stdout + r.stderr)[-300:])
        exp = s['logs']
        if len(exp) != len(logs): return i, 'log length %d vs %d' % (len(exp), len(logs))
        for e, g in zip(exp, logs):
            if e[0] != g[0]: return i, 'label %s vs %s' % (e, g)
            if e[1] == g[1] or e[1] == 'undef': continue
            def f(x): return float.fromhex(x) if 'x' in x else float(x)
            try: x, y = f(e[1]), f(g[1])
            except ValueError: return i, '%s vs %s' % (e, g)
            if x != x and y != y: continue
            if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)): return i, '%s vs %s' % (e, g)
        return i, None
    if not reported:
        for i, bad in pool.map(valid, range(len(samples))):
            tried += 1
            if bad: mismatch.append((samples[i][0], samples[i][1], bad))
            else: validated += 1
    for m in mismatch[:6]: print('MODEL-MISMATCH', m)
    unended = set(incomplete)
    ended = set(r[0] for r in runs if r[0] + '(' + ','.join(map(str, r[1])) + ')' not in unended)
    vac = sorted(e for e in ended if 'end' not in covers.get(e, ()))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('instructions', 0)), 'traces_validated_against_impl': validated,
                       'states_meaning': 'symbolic paths explored', 'transitions_meaning': 'LLVM instructions executed symbolically',
                       'assertions_decided': int(tot.get('discharged', 0)), 'assertions_checked': int(tot.get('checks', 0)), 'decided_by_normal_form': int(tot.get('trivial', 0)),
                       'undecided': int(tot.get('undecided', 0)), 'abandoned_paths': int(tot.get('abandoned', 0)), 'abandon_reasons': abandon,
                       'queries': int(tot.get('queries', 0)), 'queries_sat': int(tot.get('sat', 0)), 'queries_unsat': int(tot.get('unsat', 0)), 'queries_unknown': int(tot.get('unknown', 0)),
                       'solver_s': round(tot.get('solver_s', 0), 3), 'max_query_ms': tot.get('max_query_ms', 0), 'forks': int(tot.get('decisions', 0)),
                       'functions_encoded': sorted(funcs), 'bounds': D['bounds'], 'outside_bounds': D['outside'], 'runs': perrun, 'incomplete_runs': incomplete,
                       'exhaustive': False, 'unreached_ends': vac, 'unconfirmed': unconfirmed, 'model_mismatches': [list(map(str, m)) for m in mismatch],
                       'known_findings_seen': [k['id'] for k in knownseen],
                       'samples': [{'entry': e, 'params': p, 'inputs': s['inputs'][:40], 'logs': s['logs'][:20]} for e, p, s in samples[:6]]},
          'assumptions': D['assume'] + ['double arithmetic is modelled as exact real arithmetic', 'inputs are multiples of 1/8 in [-128,128] unless a bound says otherwise'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
    evd = os.path.join(V, 'evidence') if not alt else os.path.join(BUILD, 'evidence' + alt)
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    done = set()
    for k in knownseen:
        if k['id'] not in done:
            done.add(k['id']); print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for rr in reported:
        print('  %s(%s): %s: %s [%s] native: %s' % (rr['entry'], ','.join(map(str, rr['params'])), rr['kind'], rr['msg'], rr['where'], rr['native']))
    for rr in reported[:1]:
        print('VIOLATION property=%s replay=%s' % (prop, rr['replay']))
    print('%s %s: paths=%d checks=%d queries=%d solver=%.1fs validated=%d/%d undecided=%d abandoned=%d incomplete=%d unconfirmed=%d wall=%.1fs' % (
        prop, tier, tot.get('paths', 0), tot.get('checks', 0), tot.get('queries', 0), tot.get('solver_s', 0), validated, tried, tot.get('undecided', 0), tot.get('abandoned', 0), len(incomplete), len(unconfirmed), time.time() - t0))
    if abandon: print('  abandoned:', abandon)
    if incomplete: print('  incomplete:', incomplete[:20])
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(bd, ignore_errors=True)
    if reported: return 1
    if errors: return 2
    if mismatch: print('ERROR the symbolic execution disagrees with the real build'); return 2
    if vac: print('ERROR vacuous: no path reached the end of', vac); return 2
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        print('ERROR', e); sys.exit(2)
