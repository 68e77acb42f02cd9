"""irv check runner:  python3-vt -m irv.check <PROPERTY>
Rebuilds the proof drivers of one property against /repo's current headers, discharges every obligation,
writes evidence/<id>.json, and prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, time, subprocess, tempfile, shutil, re, hashlib, traceback
import multiprocessing as mp
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRV_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)
CXX = 'clang++-18'
BASE = ['-std=gnu++14', '-w', '-fno-access-control', '-I' + REPO + '/include', '-I' + VERIF + '/irv', '-I' + VERIF + '/proofs']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-ffp-model=strict', '-fno-discard-value-names', '-c', '-emit-llvm']
PASSES = "function(sroa<modify-cfg>,early-cse,simplifycfg)"

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def compile_bc(args):
    drv, out = args
    src = os.path.join(VERIF, 'proofs', drv + '.cpp')
    r = sh([CXX] + BASE + IRFLAGS + [src, '-o', out + '.0.bc'])
    if r.returncode: return (drv, None, r.stdout[-6000:])
    r = sh(['opt-18', '-passes=' + PASSES, out + '.0.bc', '-o', out + '.bc'])
    if r.returncode: return (drv, None, r.stdout[-3000:])
    return (drv, out + '.bc', None)

def run_unit(a):
    bc, harness, opts = a
    t0 = time.time()
    res = dict(harness=harness, error=None, obl={}, covers={}, loops={}, fns=[], assumptions=[], stats={}, times={}, paths=0, instr=0)
    try:
        from irv.llvmc import Module
        from irv.cut import Cutter
        from irv import solver, execu
        solver.STATS.q.clear(); solver.STATS.t.clear()
        m = Module(bc); c = Cutter(m, opts)
        c.t_end = min(time.time() + opts.get('budget', 600), opts.get('deadline', 1e18))
        try:
            c.run_harness(harness)
        except execu.EngineError as e:
            res['error'] = 'verifier: %s' % e
        except RecursionError as e:
            res['error'] = 'verifier: recursion'
        for o in c.obl.values():
            res['obl'][o.id] = dict(n=o.n, ok=o.ok, backends=o.backends, fail=o.fail)
        res['covers'] = c.covers; res['loops'] = c.loops_cut; res['paths'] = c.paths; res['instr'] = c.ninstr
        res['fns'] = [c.dm(n) for n in c.fns_run]
        res['assumptions'] = sorted(c.assumptions)
        res['stats'] = dict(solver.STATS.q); res['times'] = dict(solver.STATS.t)
    except Exception as e:
        res['error'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-3000:])
    res['wall'] = time.time() - t0
    return res

def harnesses(bc, prop, only=None):
    from irv.llvmc import Module
    m = Module(bc)
    return sorted(n for n, f in m.fns.items() if n.startswith('H_%s_' % prop) and not f.decl and (only is None or only in n))

def build_native(drv, d):
    exe = os.path.join(d, drv + '.native')
    if os.path.exists(exe): return exe, None
    src = os.path.join(VERIF, 'proofs', drv + '.cpp')
    r = sh(['g++'] + BASE + ['-DIRV_NATIVE', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-rdynamic', src, os.path.join(VERIF, 'irv', 'native.cpp'), '-o', exe, '-ldl'])
    if r.returncode: return None, r.stdout[-3000:]
    return exe, None

def native_search(exe, harness, d, seed, nruns, secs, models=()):
    """try model values, then a seeded search; returns (found, info)"""
    h = harness[2:]
    out = os.path.join(d, 'fail_%s.txt' % h)
    tries = []
    for i, ml in enumerate(models[:4]):
        fn = os.path.join(d, 'model_%s_%d.txt' % (h, i))
        with open(fn, 'w') as f:
            for nm, v in ml: f.write('v %s %.17g\n' % (nm, float(v)))
        tries.append((fn, max(200, nruns // 10), secs / 4))
    tries.append((None, nruns, secs))
    log = []
    for fn, n, s in tries:
        if os.path.exists(out): os.remove(out)
        cmd = [exe, h, out, str(seed), str(n), str(s)] + ([fn] if fn else [])
        try: r = sh(cmd, timeout=s + 60, cwd=d)
        except subprocess.TimeoutExpired: log.append('timeout'); continue
        log.append(r.stdout[-600:])
        if r.returncode != 0 and os.path.exists(out):
            txt = open(out).read()
            if 'failed timeout' in txt: txt = txt.replace('failed timeout', 'failed no termination within 20 s')
            return True, dict(cmd=cmd, record=txt, output=r.stdout[-4000:])
    return False, dict(log=log)

def search1(j): return j[0], native_search(*j[1])

def models_of(fails):
    out = []
    for f in fails:
        if f.get('model') is None: continue
        ml = []
        for nm, k, full in f['inputs']:
            if full is None: ml.append((nm, k))
            elif full in f['model']: ml.append((nm, f['model'][full]))
        out.append(ml)
    return out

def jsafe(x):
    from fractions import Fraction
    if isinstance(x, Fraction): return str(x)
    if isinstance(x, dict): return {str(k): jsafe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsafe(v) for v in x]
    return x

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--only'); ap.add_argument('-v', action='count', default=0); ap.add_argument('--keep'); ap.add_argument('--no-native', action='store_true')
    A = ap.parse_args()
    from irv.registry import REG
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    R = REG[A.prop]; t0 = time.time()
    d = A.keep or tempfile.mkdtemp(prefix='irv_%s_' % A.prop)
    os.makedirs(d, exist_ok=True)
    try:
        code = go(A, R, tier, seed, d, t0)
    finally:
        if not A.keep: shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    return code

def go(A, R, tier, seed, d, t0):
    prop = A.prop
    nproc = min(8, os.cpu_count() or 4)
    drvs = R['drivers']
    with mp.Pool(nproc) as pool:
        comp = pool.map(compile_bc, [(x, os.path.join(d, x)) for x in drvs])
        errs = [(a, e) for a, b, e in comp if b is None]
        comp = [c for c in comp if c[1] is not None]
        units = []
        opts0 = dict(R.get('opts', {})); 
        opts0['deadline'] = t0 + (450 if tier == 'quick' else 3000)
        if tier == 'thorough': opts0['ob_ms'] = opts0.get('ob_ms', 15000) * 4
        hs = pool.starmap(harnesses, [(b, prop, A.only) for a, b, e in comp])
        for (drv, bc, _), l in zip(comp, hs):
            for h in l: units.append((drv, bc, h))
        if not units and not errs:
            print('ERROR: no proof obligations registered for %s' % prop); return 2
        res = pool.map(run_unit, [(bc, h, opts0) for drv, bc, h in units], chunksize=1)
    failures = []; engine = []; nobl = ndis = 0; covers_bad = []
    backends = {}
    for (drv, bc, h), r in zip(units, res):
        if A.v:
            print('%-50s %6.1fs paths %d instr %d %s %s' % (h, r['wall'], r['paths'], r['instr'], r['stats'], r['error'] or ''))
            for k, o in r['obl'].items():
                if A.v > 1 or o['ok'] < o['n']: print('     %-50s %d/%d %s' % (k, o['ok'], o['n'], o['backends']))
            if A.v > 1:
              for k, l in r['loops'].items(): print('     LOOP', k[:150], l)
            print('     covers', r['covers'], r['assumptions'])
        for k, o in r['obl'].items():
            nobl += 1
            if o['fail'] or o['ok'] < o['n']: failures.append((drv, h, k, o))
            else: ndis += 1
            for b, n in o['backends'].items(): backends[b] = backends.get(b, 0) + n
        if r['error']: engine.append((drv, h, r['error']))
        elif not r['covers']: covers_bad.append((h, 'no cover point reached', 'missing'))
        for k, v in r['covers'].items():
            if v == 'unreachable': covers_bad.append((h, k, v))
        if not r['error'] and not any(not k.startswith(('mem:', 'arith:', 'ub:', 'exc:')) for k in r['obl']):
            covers_bad.append((h, 'no functional obligation generated', 'vacuous'))
    code = 0; nviol = 0
    outdir = os.path.join(VERIF, 'out', 'replay'); os.makedirs(outdir, exist_ok=True)
    for drv, e in errs:
        # the specification no longer fits the interface of the code: none of its obligations can be discharged
        rp = os.path.join(outdir, '%s-%s.json' % (prop, drv))
        json.dump(dict(property=prop, driver='proofs/%s.cpp' % drv, failed_obligations=[dict(id='contract does not compile against the current tree')], verifier_error=e, failing_input_found=False), open(rp, 'w'), indent=1)
        print('FAILED obligation %s / contract does not compile against the current tree\n%s' % (drv, e[:3000]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); nviol += 1; code = 1; nobl += 1
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    outdir = os.path.join(VERIF, 'out', 'replay'); os.makedirs(outdir, exist_ok=True)
    byh = {}
    for drv, h, k, o in failures: byh.setdefault((drv, h), []).append((k, o))
    for drv, h, e in engine: byh.setdefault((drv, h), [])
    for (h, k, v) in covers_bad:
        # a specification whose cover point cannot be reached any more: the code path the contract speaks about is gone
        drv = next(u[0] for u in units if u[2] == h)
        byh.setdefault((drv, h), []).append(('cover:' + k, dict(n=1, ok=0, fail=[dict(reason='cover point %s' % v, where='', inputs=[], model=None, goal=k, pc=[])], backends={})))
    rest = []
    for (drv, h), lst in sorted(byh.items()):
        kf = [k for k in known if k['harness'] == h and all(q in k['obligations'] for q, _ in lst)] if lst else []
        eng = [e for a, b, e in engine if b == h]
        if kf and not eng:
            for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        if not lst:
            # the verifier gave up on this function: its obligations are not discharged
            lst = [('verifier did not accept the function', dict(n=1, ok=0, fail=[dict(reason=eng[0], where='', inputs=[], model=None, goal='', pc=[])], backends={}))]; nobl += 1
        rest.append((drv, h, lst, eng))
    found = {}
    if rest and not A.no_native:
        with mp.Pool(nproc) as pool:
            ds = sorted({r[0] for r in rest})
            exes = dict(zip(ds, pool.starmap(build_native, [(x, d) for x in ds])))
            secs = 25 if tier == 'quick' else 90
            cap = 5 * nproc
            jobs = [(i, (exes[drv][0], h, d, seed, 200000, secs, [m for k, o in lst for m in models_of(o['fail'])][:4])) for i, (drv, h, lst, eng) in enumerate(rest) if exes[drv][0]][:cap]
            for i, r in enumerate(rest):
                found[i] = (False, dict(log=['native build failed', exes[r[0]][1]] if not exes[r[0]][0] else ['not searched']))
            hit = 0
            for (i, fi) in pool.imap_unordered(search1, jobs):
                found[i] = fi; hit += fi[0]
                if hit >= 6: break
            pool.terminate()
    anyhit = any(f[0] for f in found.values())
    for i, (drv, h, lst, eng) in enumerate(rest):
        fd, info = found.get(i, (False, dict(log=['native search disabled'])))
        rp = os.path.join(outdir, '%s-%s.json' % (prop, h))
        json.dump(jsafe(dict(property=prop, driver='proofs/%s.cpp' % drv, harness=h, failed_obligations=[dict(id=k, failures=o['fail']) for k, o in lst], verifier_error=eng, failing_input_found=fd, native=info,
             how='native: g++ the driver with irv/native.cpp against the tree (see irv/check.py build_native), run the harness with the listed seed/run or inputs')), open(rp, 'w'), indent=1)
        for k, o in lst[:6]:
            f = (o['fail'] or [{}])[0]
            print('FAILED obligation %s / %s: %s\n   at %s\n   goal %s' % (h, k, f.get('reason'), f.get('where'), str(f.get('goal'))[:600]))
        if fd: print('   failing input: ' + '; '.join(info['record'].split('\n')[:14]))
        else: print('   native search: %s' % (str(info.get('log'))[:600],))
        nviol += 1; code = 1
        if fd or not anyhit: print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fd else ' no-failing-input-found'))
    xval = []
    if tier == 'thorough' and code == 0 and not A.no_native:
        with mp.Pool(nproc) as pool:
            exes = dict(zip(drvs, pool.starmap(build_native, [(x, d) for x in drvs])))
            todo = [(exes[drv][0], h, d, seed, 100000, 20) for drv, bc, h in units if exes[drv][0] and not any(k['harness'] == h for k in known)]
            for (exe, h, *_), (fd, info) in zip(todo, pool.starmap(native_search, todo)):
                xval.append(dict(harness=h, disagree=fd, log=info.get('log') or info.get('record')))
                if fd:
                    print('ERROR: native execution contradicts the proof in %s: %s' % (h, info['record'])); code = 2
    fns = {}
    for r in res:
        for f in r['fns']:
            if 'boost::numeric::odeint' in f and not f.startswith('H_'): fns[f] = 1
    loops = {k: v for r in res for k, v in r['loops'].items()}
    ev = dict(property=prop, tier=tier, seed=seed, level=R.get('level', 'proof'),
        coverage=dict(obligations=nobl, discharged=ndis, checker_cmd='python3-vt -m irv.check %s' % prop,
            trusted_base=TRUSTED, proof_harnesses=len(units), functions_under_contract=len(fns), functions=sorted(fns)[:400],
            obligation_instances=sum(o['n'] for r in res for o in r['obl'].values()), backends=backends,
            solver_queries={k: sum(r['stats'].get(k, 0) for r in res) for k in ('z3-linear', 'z3-nonlinear', 'cvc5')},
            solver_seconds={k: round(sum(r['times'].get(k, 0) for r in res), 2) for k in ('z3-linear', 'z3-nonlinear', 'cvc5')},
            paths=sum(r['paths'] for r in res), ir_instructions=sum(r['instr'] for r in res), loops_cut_with_inferred_invariants=len(loops),
            loop_invariants={k[:300]: v['invariants'][:12] for k, v in list(loops.items())[:40]},
            cover_points={r['harness']: r['covers'] for r in res}, per_harness={r['harness']: dict(obligations=len(r['obl']), paths=r['paths'], seconds=round(r['wall'], 2), error=r['error']) for r in res},
            samples=[dict(harness=r['harness'], obligation=k, instances=o['n'], backends=o['backends']) for r in res[:3] for k, o in list(r['obl'].items())[:3]],
            native_cross_validation=xval, bounded=R.get('bounded', [])),
        assumptions=sorted(set(R.get('assumptions', []) + [a for r in res for a in r['assumptions']])) + GENERAL, wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(jsafe(ev), open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d harnesses, %d paths, %d functions, %.1fs -> exit %d' % (prop, nobl, ndis, len(units), ev['coverage']['paths'], len(fns), time.time() - t0, code))
    return code

TRUSTED = ['irv verifier (/verif/irv: symbolic executor, loop-invariant inference with inductive re-check, polynomial normal form)', 'Z3 5.x, cvc5 1.4',
           'clang 18 front end and the sroa/early-cse/simplifycfg passes', 'LLVM-C bitcode reader', 'specifications in /verif/proofs']
GENERAL = ['floating point is treated as real arithmetic: no rounding, overflow, NaN or infinity', 'machine integers treated as mathematical integers where symbolic (no wrap-around of counters)',
           'termination is not proved (partial correctness)', 'libstdc++/Boost header code is executed from its real source; operator new, memcpy, exceptions and libm functions by built-in contracts',
           'object file semantics after -O1 code generation of other compilers are not examined (source-level IR is)']

if __name__ == '__main__':
    sys.exit(main())
