#!/usr/bin/env python3-vt
"""check of one property: verify every contract obligation generated from /repo's current source; replay failures.
   usage: run.py PROP [--tier quick|thorough] [--unit NAME ...] [--no-driver] [--keep]"""
import sys, os, json, time, subprocess, importlib, multiprocessing as mp, hashlib, signal, shutil, re, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'engine'), os.path.join(ROOT, 'contracts')]
REPO = os.environ.get('MPART_REPO', '/repo')
DEFS = ['-DKOKKOS_DEPENDENCE', '-DMPART_HAS_CEREAL', '-DMPART_HAS_NLOPT', '-DNLOPT_DLL', '-DKOKKOS_ENABLE_CXX17']
NPROC = min(8, os.cpu_count() or 4)

def sh(cmd, **kw): return subprocess.run(cmd, capture_output=True, text=True, **kw)

def ensure_tool():
    if os.path.exists(ROOT + '/build/mpx') and os.path.getmtime(ROOT + '/build/mpx') >= os.path.getmtime(ROOT + '/tool/mpx.cpp'): return
    p = sh(['bash', ROOT + '/tool/build.sh'])
    if p.returncode: raise Exception('extractor build failed: ' + p.stderr[-2000:])

def extract(tu, outdir):
    src = ROOT + '/contracts/%s.cpp' % tu
    out = outdir + '/%s.json' % tu
    fl = ['-std=gnu++17', '-fopenmp'] + DEFS + ['-I' + REPO, '-I' + ROOT + '/tool/include', '-isystem', '/usr/include/eigen3', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']
    cmd = [ROOT + '/build/mpx', out, REPO + '/MParT,' + REPO + '/src', src, '--'] + fl
    p = sh(cmd)
    return tu, p.returncode, p.stderr[-3000:], out

def _worker(q, progpath, prop, idx, tier, tmul=1.0):
    sys.setrecursionlimit(20000)
    import unit, smt
    if tmul > 1: smt.SCALE[0] = tmul; smt.SEED[0] = 7
    ud = unit.UNITS[idx]
    try:
        prog = unit.Program(progpath)
        r = unit.run_unit(prog, ud, tier, tmul)
    except Exception as e:
        r = dict(unit=ud.name, prop=prop, status='engine-error', obls=[], targets=[], covered=[], contracts=[], assumed=[], notes=[], err=repr(e), tb=traceback.format_exc()[-2000:])
    q.put((idx, r))

def run_units(sel, jsons, prop, tier, wall, tmul=1.0, nproc=None):
    """one process per unit"""
    import unit
    q = mp.Queue()
    pend = sorted(sel, key=lambda i: -unit.UNITS[i].opts.get('cost', 1)); act = {}; res = {}
    t0 = time.time()
    while pend or act:
        while pend and len(act) < (nproc or NPROC):
            i = pend.pop(0)
            tu = unit.UNITS[i].opts.get('tu') or DEFTU
            p = mp.Process(target=_worker, args=(q, jsons[tu], prop, i, tier, tmul)); p.start()
            act[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.2)
            res[i] = r
            act.pop(i)[0].join()
        except Exception: pass
        for i in list(act):
            p, ts = act[i]
            lim = unit.UNITS[i].opts.get('budget', 240 if tier == 'quick' else 1500) + 120
            if time.time() - ts > lim or time.time() - t0 > wall or (not p.is_alive() and q.empty()):
                time.sleep(0.3)
                if not q.empty(): continue
                st = 'timeout' if p.is_alive() else 'engine-error'
                p.kill(); p.join()
                act.pop(i)
                res[i] = dict(unit=unit.UNITS[i].name, prop=prop, status=st, obls=[], targets=[], covered=[], contracts=[], assumed=[], notes=[], err='killed after %ds' % (time.time() - ts))
    return res
DEFTU = None

# ------------------------------------------------------------------------------------------------ replay / bounded driver
def driver_links(src):
    links = []; flags = []
    for l in open(src):
        m = re.match(r'//\s*LINK:\s*(.*)', l)
        if m: links += m.group(1).split()
        m = re.match(r'//\s*FLAGS:\s*(.*)', l)
        if m: flags += m.group(1).split()
    return links, flags

def build_driver(prop, bdir):
    src = ROOT + '/drivers/%s.cpp' % prop
    links, flags = driver_links(src)
    os.makedirs(bdir, exist_ok=True)
    base = ['g++', '-std=gnu++17', '-O1', '-g0', '-fopenmp', '-w', '-D_GLIBCXX_ASSERTIONS', '-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK'] + DEFS + flags + ['-I' + REPO, '-I' + ROOT + '/drivers', '-isystem', '/usr/include/eigen3']
    jobs = []
    for s in [src] + [REPO + '/' + l for l in links]:
        o = bdir + '/' + s.replace('/', '_') + '.o'
        jobs.append((s, o, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=open(o + '.err', 'w'))))
    for s, o, p in jobs:
        if p.wait() and subprocess.run(base + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=open(o + '.err', 'w')).returncode: return None, 'compile %s: %s' % (s, open(o + '.err').read()[:1500])
    exe = bdir + '/driver'
    lib = ['-lkokkoscore', '-ldl', '-lnlopt', '-lstdc++fs']
    p = sh(base + [o for _, o, _ in jobs] + ['-o', exe] + lib)
    if p.returncode: return None, 'link: ' + p.stderr[-1500:]
    return exe, ''

def run_driver(exe, seed, tier, outdir, only=None, left=400):
    t0 = time.time()
    lim = left if tier == 'quick' else 1500
    env = dict(os.environ, OMP_NUM_THREADS='4', OMP_PROC_BIND='false', OMP_WAIT_POLICY='passive', KOKKOS_DISABLE_WARNINGS='1',ASAN_OPTIONS='detect_leaks=0:abort_on_error=1')
    try:
        p = sh([exe, str(seed), tier, outdir] + (only or []), timeout=lim, env=env)
        out, rc = p.stdout, p.returncode
        err = p.stderr[-2000:]
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); rc = 'timeout'; err = ''
    fails = [l[5:] for l in out.split('\n') if l.startswith('FAIL ')]
    cov = {}
    for l in out.split('\n'):
        if l.startswith('COVER '):
            k, n = l[6:].rsplit(' ', 1); cov[k] = int(n)
    crash = [l[6:] for l in out.split('\n') if l.startswith('CRASH ')]
    done = any(l.startswith('DONE') for l in out.split('\n'))
    if rc == 'timeout':
        err = 'the driver did not finish within %d s and was stopped (it ends itself when a case makes no progress)' % lim     # a slow machine: no failure
    elif crash: fails += ['crash :: ' + c for c in crash]
    elif not done: fails.append('crash :: driver ended with status %s before finishing: %s' % (rc, err[-300:]))
    return dict(fails=fails, cover=cov, rc=rc, wall=time.time() - t0, stderr=err)

def known():
    p = ROOT + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    global DEFTU
    a = sys.argv[1:]
    prop = a.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick'); units = []; nodrv = False; verbose = False
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--unit': units.append(a.pop(0))
        elif x == '--no-driver': nodrv = True
        elif x == '-v': verbose = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ensure_tool()
    m = importlib.import_module(prop)
    import unit
    DEFTU = getattr(m, 'TU', prop)
    sel = [i for i, ud in enumerate(unit.UNITS) if ud.prop == prop and (not units or ud.name in units) and (tier == 'thorough' or not ud.opts.get('thorough'))]
    bdir = ROOT + '/build/run_%s_%d' % (prop, os.getpid())
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    replay_dir = ROOT + '/build/replay'; os.makedirs(replay_dir, exist_ok=True)
    try:
        rc = check(prop, m, sel, tier, seed, bdir, replay_dir, t0, nodrv, verbose)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def check(prop, m, sel, tier, seed, bdir, replay_dir, t0, nodrv, verbose):
    import unit
    tus = sorted({unit.UNITS[i].opts.get('tu') or DEFTU for i in sel})
    hasdrv = os.path.exists(ROOT + '/drivers/%s.cpp' % prop) and not nodrv
    drvproc = None
    with mp.pool.ThreadPool(8) as tp:
        ex = tp.map(lambda t: extract(t, bdir), tus)
        bld = tp.apply_async(build_driver, (prop, bdir + '/drv')) if hasdrv else None
        jsons = {}; exerr = {}
        for tu, rc, err, out in ex:
            if rc or not os.path.exists(out): exerr[tu] = err
            else: jsons[tu] = out
        ok_sel = [i for i in sel if (unit.UNITS[i].opts.get('tu') or DEFTU) in jsons]
        res = run_units(ok_sel, jsons, prop, tier, 600 if tier == 'quick' else 3000)
        for i in sel:
            if i not in res:
                tu = unit.UNITS[i].opts.get('tu') or DEFTU
                res[i] = dict(unit=unit.UNITS[i].name, prop=prop, status='unsupported', obls=[], targets=[], covered=[], contracts=[], assumed=[], notes=[], err='extraction of %s failed: %s' % (tu, exerr.get(tu, '')[-500:]))
        drv = None; drverr = ''
        if bld is not None:
            exe, drverr = bld.get()
            if exe: drv = run_driver(exe, seed, tier, bdir, left=max(60, min(400, 840 - (time.time() - t0))))
        # an obligation the solvers gave up on is tried again, with more time on a quieter machine
        again = [i for i in res if res[i]['status'] == 'timeout' or any(not o['ok'] and o['status'] != 'sat' for o in res[i]['obls']) and not any(not o['ok'] and o['status'] == 'sat' for o in res[i]['obls'])]
        if again and time.time() - t0 < 400:
            for i, r in run_units(again, jsons, prop, tier, 700 - (time.time() - t0) if tier == 'quick' else 3000, 3.0, 3).items():
                if sum(not o['ok'] for o in r['obls']) <= sum(not o['ok'] for o in res[i]['obls']) and r['status'] in ('proved', 'failed'): res[i] = r
    # ---------------------------------------------------------------- verdict
    nob = nok = 0; failed = []; undecided = []; backends = {}; tsolve = 0.0
    funcs = {}; covered = {}; assumed = set(); contracts = set(); notes = []
    for i in sorted(res):
        r = res[i]
        for t in r['targets']: funcs[t[0]] = t[1]
        for q, l in r['covered']: covered[q] = l
        assumed |= set(r['assumed']); contracts |= set(r['contracts'])
        notes += ['%s: %s' % (r['unit'], n) for n in r['notes']]
        for o in r['obls']:
            nob += 1
            tsolve += o['t']
            if o['ok']:
                nok += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else: failed.append((r, o))
        if r['status'] in ('unsupported', 'missing', 'timeout', 'engine-error', 'vacuous'): undecided.append(r)
    kf = [k for k in known() if k['property'] == prop]
    for r in undecided: print('UNDECIDED unit=%s (%s) %s' % (r['unit'], r['status'], r['err'][:300]))
    if verbose:
        for i in sorted(res):
            r = res[i]
            print('unit %-40s %-12s obligations %d/%d  exec %.1fs total %.1fs %s' % (r['unit'], r['status'], sum(o['ok'] for o in r['obls']), len(r['obls']), r.get('exec_s', 0), r.get('time', 0), r['err'][:200]))
            if r.get('tb') and r['status'] not in ('proved',): print('\n'.join(r['tb'].split('\n')[-8 if r['status'] == 'engine-error' else -3:]))
    viol = []; kprinted = set()
    fkeys = {}
    for r, o in failed:
        key = '%s/%s: %s' % (r['unit'], o['kind'], o['name'])
        k = next((k for k in kf if k.get('status') == 'finding' and k.get('obligation') == key), None)
        if k: kprinted.add(k['what']); continue
        fkeys.setdefault(key, (r, o))
    dfails = []
    if drv:
        for f in drv['fails']:
            name = f.split(' :: ')[0]
            k = next((k for k in kf if k.get('status') == 'finding' and k.get('driver_check') == name and (not k.get('input') or k['input'] in f)), None)
            if k: kprinted.add(k['what']); continue
            dfails.append(f)
    elif hasdrv: print('DRIVER did not build: %s' % drverr[:800])
    for w in sorted(kprinted): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    rc = 0
    if fkeys or dfails:
        rc = 1
        h = hashlib.sha256(json.dumps([sorted(fkeys), dfails[:5]]).encode()).hexdigest()[:12]
        path = replay_dir + '/%s_%s.json' % (prop, h)
        rep = dict(property=prop, failed_obligations=[], failing_inputs=dfails, seed=seed, tier=tier,
                   how_to_replay='the driver drivers/%s.cpp compiled against %s: `VERIF_SEED=%d python3-vt engine/run.py %s`' % (prop, REPO, seed, prop))
        for key, (r, o) in fkeys.items():
            rep['failed_obligations'].append(dict(obligation=key, location=o['loc'], function=o['fn'], solver=o['status'], goal=o.get('goal'), hypotheses=o.get('hyps'), model=o.get('model')))
        json.dump(rep, open(path, 'w'), indent=1)
        for key, (r, o) in list(fkeys.items())[:12]: print('FAILED-OBLIGATION %s at %s (%s)' % (key, o['loc'], o['status']))
        for f in dfails[:8]: print('FAILING-INPUT %s' % f[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if dfails else ' no-failing-input-found'))
    # ---------------------------------------------------------------- evidence
    cov = dict(obligations=nob, discharged=nok,
               checker_cmd='python3-vt /verif/engine/run.py %s --tier %s (z3 %s, cvc5 1.1.2 fallback; obligations regenerated from %s on this run)' % (prop, tier, zver(), REPO),
               trusted_base=['clang 18 AST -> /verif/tool/mpx.cpp extractor (drops: templates not instantiated, code under #if not taken, types beyond those modelled -> rejected, not guessed)',
                             '/verif/engine symbolic executor, term normaliser, loop summariser and SMT encoding', 'z3 / cvc5'] + sorted(assumed),
               functions_under_contract=[{'function': k, 'where': v} for k, v in sorted(funcs.items())],
               real_bodies_executed=sorted(covered), callee_contracts_used=sorted(contracts),
               by_backend=backends, solver_seconds=round(tsolve, 2),
               units=[dict(unit=res[i]['unit'], status=res[i]['status'], obligations=len(res[i]['obls']), discharged=sum(o['ok'] for o in res[i]['obls']), seconds=res[i].get('time', 0), reason=res[i]['err'][:300]) for i in sorted(res)],
               overapproximated_loops=notes[:40], undecided_units=[r['unit'] for r in undecided])
    if drv:
        cov['bounded_standins'] = dict(label='bounded, never counted as proved', driver='drivers/%s.cpp' % prop, seed=seed, checks=drv['cover'], seconds=round(drv['wall'], 1), failing=len(drv['fails']),
                                       functions=getattr(m, 'BOUNDED', []))
    elif hasdrv: cov['bounded_standins'] = dict(label='driver did not build', error=drverr[:500])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME + getattr(m, 'ASSUME', []), wall_s=round(time.time() - t0, 1), violations=1 if rc else 0)
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open(ROOT + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d units (%d undecided), driver %s, %.0f s' % (prop, nok, nob, len(res), len(undecided),
          'none' if not hasdrv else ('not built' if not drv else '%d checks, %d failing' % (sum(drv['cover'].values()), len(drv['fails']))), time.time() - t0))
    return rc
ASSUME = ['double arithmetic is treated as exact real arithmetic (rounding, overflow to inf and NaN are outside the proof)',
          'unsigned/int arithmetic is mathematical except that a possibly negative unsigned difference is modelled with its wrap-around; sums and products are assumed not to overflow',
          'real division by zero is not an obligation: 1/x is an uninterpreted value at 0',
          'heap allocation succeeds; Kokkos::View reference counting is modelled as aliasing of one buffer',
          'a Kokkos parallel region runs each iteration exactly once in any order; independence of iterations is an obligation (kind race)']
def zver():
    import z3
    return z3.get_version_string()
import multiprocessing.pool
if __name__ == '__main__':
    mp.set_start_method('fork')
    main()
