"""Driver: bash check.sh <ID>.  Compiles the harnesses against /repo, explores, replays, writes evidence."""
import sys, os, json, time, subprocess, shutil, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY): PY = 'python3-vt'
COMMON = ['-std=c++17', '-w', '-DNDEBUG', '-I' + ROOT + '/harness']
INC = ['-I' + ROOT + '/shim/base', '-I' + REPO, '-I/usr/include/eigen3']
SYM = ['clang++-18', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG',
       '-include', ROOT + '/shim/pre/vp_pre.h', '-fno-stack-protector', '-DVP_SYMBOLIC', '-S', '-emit-llvm', '-fno-discard-value-names', '-fno-ident']
NAT = ['g++', '-O1', '-g0', '-DVP_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_DONT_VECTORIZE', '-ffp-contract=off']


def flags(u):
    inc = ['-I' + os.path.join(ROOT, d) for d in u.get('inc', [])] + INC
    return COMMON + inc + u.get('flags', []) + (['-DVP_FP'] if u.get('domain') == 'fp' else []) + (['-fopenmp'] if u.get('omp') else [])


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from claims import CLAIMS
    spec = CLAIMS[pid]
    only = os.environ.get('VP_ONLY')
    budget = spec.get('budget', 600 if tier == 'quick' else 840)
    budget = min(budget, 820)
    bdir = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    rdir = os.path.join(ROOT, 'evidence', 'replays', pid)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    os.environ['VP_TMP'] = bdir
    try:
        return run(pid, spec, tier, seed, only, budget, bdir, rdir, t0)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(bdir, ignore_errors=True)
        else: print('kept', bdir)


def run(pid, spec, tier, seed, only, budget, bdir, rdir, t0):
    # ---- compile
    comps = []
    jobs = []
    for ui, u in enumerate(spec['units']):
        if u.get('tier') == 'thorough' and tier != 'thorough': continue
        src = os.path.join(ROOT, 'harness', u['src'])
        base = os.path.join(bdir, 'u%d' % ui)
        fl = flags(u)
        c1 = SYM + fl + u.get('symflags', []) + [src, '-o', base + '.ll']
        c2 = NAT + fl + u.get('natflags', []) + [src, os.path.join(ROOT, 'harness', 'vp_native.cpp'), '-o', base + '.exe'] + u.get('natlibs', [])
        comps.append((ui, base, c1, c2, u))
    procs = []
    for ui, base, c1, c2, u in comps:
        ef = open(base + '.ll.err', 'w')
        p1 = subprocess.Popen(c1, stdout=ef, stderr=ef)
        ef2 = open(base + '.exe.err', 'w')
        p2 = subprocess.Popen(c2, stdout=ef2, stderr=ef2)
        procs.append((ui, base, p1, p2, u))
    errors = []
    violations = []
    pend = []
    for ui, base, p1, p2, u in procs:
        if p1.wait() != 0:
            errors.append('symbolic build of %s failed: %s' % (u['src'], open(base + '.ll.err').read()[-1500:]))
            continue
        for e in u['entries']:
            if e.get('tier') == 'thorough' and tier != 'thorough': continue
            if only and only not in e['fn']: continue
            opts = dict(domain=u.get('domain', 'real'))
            opts.update(u.get('opts', {})); opts.update(e.get('opts', {}))
            if tier == 'thorough': opts.update(e.get('thorough', {})); 
            pins = e.get('pins') or [None]
            if tier == 'thorough' and 'tpins' in e: pins = e['tpins']
            for k, pin in enumerate(pins):
                pend.append(dict(prop=pid, src=u['src'], fn=e['fn'], ll=base + '.ll', native=base + '.exe', opts=opts, pins=pin, seed=seed,
                                 replay=os.path.join(rdir, '%s-%d%s' % (e['fn'], k, 'u%d' % ui if ui else '')), expect=e.get('reach', []), bounds=e.get('bounds', ''), weight=e.get('weight', 1),
                                 witnesses=e.get('witnesses', 3)))
    # native builds finish in the background; mark completion
    stopped = []  # entries not finished because a violation was already confirmed
    running = []
    results = []
    pend.sort(key=lambda j: -j['weight'])
    natwait = [(base, p2, u) for ui, base, p1, p2, u in procs]
    tl = t0 + budget
    n = 0
    maxpar = 8
    while pend or running or natwait:
        for it in list(natwait):
            base, p2, u = it
            if p2.poll() is not None:
                natwait.remove(it)
                open(base + '.exe.done', 'w').close()
                if p2.returncode != 0: errors.append('native build of %s failed: %s' % (u['src'], open(base + '.exe.err').read()[-1500:]))
        if time.time() > tl:
            for j, p, out in running: p.kill(); results.append((j, None))
            for j in pend: results.append((j, None))
            for base, p2, u in natwait: p2.kill()
            break
        while pend and len(running) < maxpar:
            j = pend.pop(0)
            jf = os.path.join(bdir, 'job%d.json' % n); of = os.path.join(bdir, 'out%d.json' % n); n += 1
            left = tl - time.time()
            j['opts']['time'] = min(j['opts'].get('time', 120), max(5, left - 40))
            json.dump(j, open(jf, 'w'))
            p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), jf, of], stdout=sys.stderr if os.environ.get('VP_VERBOSE') else subprocess.DEVNULL, stderr=sys.stderr if os.environ.get('VP_VERBOSE') else subprocess.DEVNULL)
            j['started'] = time.time()
            running.append((j, p, of))
        for it in list(running):
            j, p, of = it
            if p.poll() is not None:
                running.remove(it)
                try: results.append((j, json.load(open(of))))
                except Exception: results.append((j, None))
                r = results[-1][1]
                if tier == 'quick' and r is not None and any(match_known(load_known(pid), j, v) is None for v in r['violations']):
                    for j2, p2, _ in running: p2.kill(); stopped.append(j2['fn'])
                    stopped += [j2['fn'] for j2 in pend]; running = []; pend = []
                    break
            elif time.time() - j['started'] > j['opts']['time'] * 1.5 + 150:
                p.kill(); running.remove(it); results.append((j, None))
        time.sleep(0.05)
    # ---- collect
    tot = dict(paths=0, insts=0, asserts=0, proved=0, undecided=0, forks=0)
    smt = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0)
    funcs = set(); reached = set(); samples = []; unconf = []; undec = []; obl = []; wit = [0, 0]; mism = []
    expected = set()
    for j, r in results:
        name = j['fn'] + ('' if not j['pins'] else ' ' + json.dumps(j['pins']))
        expected |= set(j['expect'])
        if r is None:
            undec.append(dict(entry=name, why='timed out or killed')); continue
        if r.get('error'):
            undec.append(dict(entry=name, why=r['error'][-400:])); 
            if 'stat' not in r: continue
        s = r['stat']
        for k in tot: tot[k] += s.get(k, 0)
        for k in smt: smt[k] += r['smt'].get(k, 0)
        funcs |= set(r.get('funcs', [])); reached |= set(r.get('reached', []))
        samples += r['samples'][:1]
        for v in r['violations']: violations.append((j, v))
        for v in r['unconfirmed']: unconf.append(dict(entry=name, **v))
        for v in r['undecided']: undec.append(dict(entry=name, why=str(v)[:500]))
        if s.get('timeout') or s.get('pathlimit'): undec.append(dict(entry=name, why='exploration limit reached, %d states left' % s.get('left', 0)))
        wit[0] += r['witness']['run']; wit[1] += r['witness']['agree']
        for x in r['witness']['mismatch']: mism.append(name + ': ' + x[:300])
        obl.append(dict(entry=name, bounds=j['bounds'], domain=j['opts'].get('domain'), paths=s['paths'], asserts=s['asserts'], proved=s['proved'], wall_s=round(r['wall'], 1), ended=s['ended'],
                        queries=r['smt'].get('queries')))
    missing = sorted(expected - reached) if not only else []
    known = load_known(pid)
    new = []
    knownhit = set()
    for j, v in violations:
        k = match_known(known, j, v)
        if k is not None: knownhit.add(k)
        else: new.append((j, v))
    dem = demangle(sorted(funcs))
    repo_funcs = [f for f in dem if not f.startswith(('std::', 'void std::', '__gnu_cxx', 'vp_', 'Eigen::internal'))][:80]
    cov = dict(stopped_after_violation=stopped[:20], states=tot['paths'], transitions=tot['insts'], traces_validated_against_impl=wit[1], samples=samples[:6] or [dict(note='no feasible path completed')],
               queries=smt['queries'], queries_unsat=smt['unsat'], queries_sat=smt['sat'], queries_unknown=smt['unknown'], solver_s=round(smt['solver_s'], 2), forks=tot['forks'], assertions=tot['asserts'], assertions_proved=tot['proved'],
               obligations_detail=obl, functions_encoded=repo_funcs, functions_encoded_count=len(funcs), undecided=undec[:20], undecided_count=len(undec), unconfirmed_counterexamples=unconf[:10],
               witness_runs=wit[0], witness_mismatches=mism[:5], unreached_goals=missing, reached_goals=sorted(reached), build_errors=errors,
               explanation='states = feasible symbolic paths explored to the end, transitions = IR instructions executed symbolically; every assertion on every path is decided by the SMT solver for all input values of that path.')
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new), assumptions=spec.get('assumptions', []))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d paths, %d assertions, %d proved, %d undecided, %d queries, solver %.1fs, witnesses %d/%d, wall %.1fs' % (pid, tot['paths'], tot['asserts'], tot['proved'], len(undec), smt['queries'], smt['solver_s'], wit[1], wit[0], time.time() - t0))
    for e in errors: print('BUILD-ERROR', e)
    for u in undec[:12]: print('undecided:', u)
    for u in unconf[:8]: print('unconfirmed:', u)
    for u in mism[:5]: print('witness mismatch:', u)
    if missing: print('not reached:', missing)
    for k in sorted(knownhit): print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    if new:
        seen = set()
        for j, v in new:
            key = v['msg'].split(' at @')[0]
            if key in seen: continue
            seen.add(key)
            print('  failing: %s  [%s]' % (v['msg'], v['native']))
            last = [l for l in v['out'].split('\n') if 'VP_FAIL' in l or 'ERROR' in l or 'error' in l][:2]
            for l in last: print('    native:', l[:200])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(new[0][1]['replay'], ROOT)))
        return 1
    if tot['asserts'] == 0 and not only:
        print('NO-ANSWER: nothing could be decided'); return 2
    return 0


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def match_known(known, j, v):
    for i, k in enumerate(known):
        if k['entry'] == j['fn'] and k['message'] in v['msg']: return i
    return None


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names), text=True, capture_output=True, timeout=20)
        return [x[:160] for x in p.stdout.strip().split('\n')]
    except Exception:
        return names


if __name__ == '__main__':
    sys.exit(main())
