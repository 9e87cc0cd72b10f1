"""Explores one entry point of one compiled harness and writes a JSON result.  argv: job.json out.json"""
import sys, os, json, time, subprocess, random
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3, ir, smt, sym


UNINT = ('log', 'exp', 'sin', 'cos', 'acos', 'asin', 'atan', 'atan2', 'tan', 'tanh', 'sinh', 'cosh', 'erf', 'erfc', 'uf')  # values the model leaves open


def fmt(kind, v):
    if kind == 'd':
        if isinstance(v, float): return repr(v)
        return repr(float(v))
    return str(v)


def value(model, inp, real):
    """concrete value of an input under a model dict"""
    nm, k, kind, e = inp
    if kind == 'c': return str(e if not isinstance(e, int) else sym.sgn(e & sym.mask(64), 64))
    t = (model or {}).get('%s#%d' % (nm, k))
    if t is None: return '0'
    v = t[1]
    if kind == 'd':
        if real:
            f = smt.val_fraction(v)
            try: return repr(float(f)) if f is not None else '0'
            except OverflowError: return '1e308' if f > 0 else '-1e308'
        if z3.is_fp_value(v):
            if v.isNaN(): return 'nan'
            if v.isInf(): return '-inf' if v.isNegative() else 'inf'
            return repr(_fpval(v))
        return '0'
    if kind == 'b': return '1' if z3.is_true(v) else '0'
    n = v.as_long()
    if kind == 'i' and n >> (v.size() - 1): n -= 1 << v.size()
    return str(n)


def _fpval(v):
    import struct
    b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return struct.unpack('<d', struct.pack('<Q', b))[0] if v.sort().ebits() == 11 else struct.unpack('<f', struct.pack('<I', b))[0]


def write_replay(path, job, inputs, model, real, msg):
    with open(path, 'w') as f:
        f.write('@property %s\n@harness %s\n@entry %s\n@message %s\n' % (job['prop'], job['src'], job['fn'], msg.replace('\n', ' ')))
        f.write('@run  %s %s <this file>\n' % ('bash replay.sh', job['prop']))
        for inp in inputs: f.write('%s#%d=%s\n' % (inp[0], inp[1], value(model, inp, real)))


def run_native(job, path, timeout=60):
    exe = job['native']
    t0 = time.time()
    while not os.path.exists(exe + '.done') and time.time() - t0 < 200: time.sleep(0.1)
    if not os.path.exists(exe): return 'nobinary', ''
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', OMP_NUM_THREADS=str(job['opts'].get('threads', 1)))
    try:
        p = subprocess.run([exe, job['fn'], path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 'hang', ''
    out = p.stdout.decode('utf8', 'replace')
    if 'VP_FAIL' in out: return 'fail', out
    if p.returncode == 4: return 'assume', out
    if p.returncode != 0: return 'crash', out
    return 'ok', out


NICE = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(2), Fraction(-3, 2), Fraction(3), Fraction(1, 3), Fraction(-1, 4), Fraction(5, 7)]
WIDE = NICE + [Fraction(10), Fraction(-20), Fraction(100), Fraction(-1000), Fraction(1, 10), Fraction(1, 1000), Fraction(7), Fraction(-5)]
UNIT = {2: [(0, 1), ('3/5', '4/5'), ('-5/13', '12/13')], 3: [(0, 0, 1), (1, 0, 0), ('3/5', 0, '4/5'), ('1/3', '2/3', '2/3'), ('2/7', '-3/7', '6/7'), ('-1/9', '4/9', '-8/9')],
        4: [(0, 0, 0, 1), ('1/2', '1/2', '1/2', '1/2'), ('1/5', '2/5', '2/5', '4/5'), ('-1/2', '1/2', '1/2', '1/2'), ('2/5', '-1/5', '4/5', '2/5'), (0, '3/5', 0, '4/5')]}
def unit_groups(pc, dbl):
    """groups of inputs constrained to unit length"""
    names = {v.decl().name(): v for v in dbl}
    out = []
    for c in pc:
        vs = sorted(smt.fvars(c))
        if len(vs) not in UNIT or not all(v in names for v in vs): continue
        def at(tup): return z3.is_true(z3.simplify(z3.substitute(c, *[(names[v], z3.Q(Fraction(x).numerator, Fraction(x).denominator)) for v, x in zip(vs, tup)])))
        if all(at(t) for t in UNIT[len(vs)]) and not at((1,) * len(vs)) and not at((0,) * len(vs)): out.append([names[v] for v in vs])
    return out


def searches(job, c, extra, dbl, seconds):
    """models under partial concretisations of the inputs (nice values; unit vectors stay unit)"""
    groups = unit_groups(c['pc'], dbl)
    grouped = {v.decl().name() for g in groups for v in g}
    free = [v for v in dbl if v.decl().name() not in grouped]
    ps = (0.9, 0.75, 0.6, 0.5, 0.95, 0.8, 0.4, 0.85, 0.7, 1.0)
    t0 = time.time(); k = 0
    neg = extra + ([c['margin']] if c['margin'] is not None else [])
    while time.time() - t0 < seconds and k < 400:
        p = ps[k % len(ps)]; pool = NICE if k % 3 else WIDE; k += 1
        fix = [v == z3.Q(q.numerator, q.denominator) for v in free if random.random() < p for q in [random.choice(pool)]]
        for g in groups:
            if random.random() < 0.15: continue
            t = list(random.choice(UNIT[len(g)]))
            if random.random() < 0.5: random.shuffle(t)
            fix += [v == z3.Q(Fraction(x).numerator, Fraction(x).denominator) for v, x in zip(g, t)]
        r, mm = smt.check(c['pc'] + neg + fix, 1500)
        if r == 'sat': yield mm


def main():
    job = json.load(open(sys.argv[1]))
    o = sym.Options()
    for k, v in job['opts'].items(): setattr(o, k, v)
    seed = job.get('seed', 1)
    random.seed(seed); z3.set_param('smt.random_seed', seed % 1000); z3.set_param('sat.random_seed', seed % 1000)
    t0 = time.time()
    res = dict(fn=job['fn'], pins=job.get('pins'), violations=[], unconfirmed=[], undecided=[], witness=dict(run=0, agree=0, mismatch=[]), error=None, samples=[])
    try:
        m = ir.Module(open(job['ll']).read())
        verbose = os.environ.get('VP_VERBOSE')
        E = sym.Engine(m, o, log=(lambda *a: print(*a, file=sys.stderr)) if verbose else None)
        E.pins = job.get('pins') or {}
        E.run('@' + job['fn'])
        real = E.real
        res['stat'] = {k: (v if k != 'funcs' else None) for k, v in E.stat.items()}
        res['stat'].pop('funcs')
        res['funcs'] = sorted(E.stat['funcs'])
        res['reached'] = sorted(E.reached)
        n = 0
        for c in E.cex:
            confirmed = False
            tries = []
            dbl = [i[3] for i in c['inputs'] if i[2] == 'd']
            extra = list(c['neg'])
            box = [z3.And(v >= -8, v <= 8) for v in dbl] if real else []
            sets = []
            if c['margin'] is not None:
                sets.append(extra + [c['margin']] + box); sets.append(extra + [c['margin']])
            if real: sets.append(extra + box)
            models = []
            def gen():
                for s in sets:
                    r, mm = smt.check(c['pc'] + s, 6000)
                    if r == 'sat': yield mm
                if c['model'] is not None: yield c['model']
                r, mm = smt.check(c['pc'] + extra, 20000)
                if r == 'sat': yield mm
                if real and dbl: yield from searches(job, c, extra, dbl, 40)
            for mm in gen():
                path = '%s-%d.replay' % (job['replay'], n)
                write_replay(path, job, c['inputs'], mm, real, c['msg'])
                st, out = run_native(job, path)
                tries.append(st)
                if st in ('fail', 'crash', 'hang') or (job['opts'].get('accept_race') and c['msg'].startswith('race')):
                    confirmed = True
                    res['violations'].append(dict(msg=c['msg'], replay=path, native=st, out=out[-600:]))
                    break
                if len(tries) > 40: break
            if not confirmed: res["unconfirmed"].append(dict(msg=c['msg'], tries=tries))
            n += 1
        # undecided assertions: look for counterexamples with partially concretised inputs
        tl = time.time() + job.get('falsify_s', 20); hangs = 0
        for u in E.undec:
            if u['kind'] == 'unwind' and u.get('hang') and hangs < 3:
                hangs += 1  # a loop that ran past its bound: does the real code terminate on these inputs?
                mm = u['model']
                if mm is None: mm = smt.check(u['pc'], 6000)[1]
                if mm is not None:
                    path = '%s-h%d.replay' % (job['replay'], hangs)
                    write_replay(path, job, u['inputs'], mm, real, 'does not terminate')
                    st, out = run_native(job, path, 12)
                    if st in ('fail', 'crash', 'hang'):
                        res['violations'].append(dict(msg='does not terminate', replay=path, native=st, out=out[-600:]))
                        continue
            if u['kind'] != 'assert':
                res['undecided'].append(dict(kind=u['kind'], msg=u['msg'])); continue
            found = False
            dbl = [i[3] for i in u['inputs'] if i[2] == 'd'] if real else []
            if time.time() < tl and dbl:
                for mm in searches(job, u, [] if u['margin'] is not None else [u['neg']], dbl, min(8, tl - time.time())):
                    path = '%s-u%d.replay' % (job['replay'], n)
                    write_replay(path, job, u['inputs'], mm, real, u['msg'])
                    st, out = run_native(job, path)
                    if st in ('fail', 'crash', 'hang'):
                        res['violations'].append(dict(msg=u['msg'], replay=path, native=st, out=out[-600:])); found = True
                        break
            n += 1
            if verbose: print('UNDEC', u['msg'], str(u['neg'])[:1500], '\nPC', '\n'.join(str(c)[:300] for c in u['pc']), '\nRULES', file=sys.stderr)
            if not found: res['undecided'].append(dict(kind='assert', msg=u['msg']))
        # witnesses: run feasible paths natively and compare observations
        states = E.ok_states
        k = job.get('witnesses', 3)
        if len(states) > k:
            step = max(1, len(states) // k)
            states = states[::step][:k]
        for inputs, model, pc, obs in states:
            if model is None or not all(('%s#%d' % (i[0], i[1])) in model for i in inputs if i[2] != 'c'):
                r, model2 = smt.check(pc, 3000)
                if r != 'sat': continue
                if model is not None:
                    model2 = {**model, **model2}
                model = model2
            path = job['replay'] + '-w.replay'
            write_replay(path, job, inputs, model, real, 'witness')
            st, out = run_native(job, path)
            res['witness']['run'] += 1
            if st == 'ok':
                got = {}
                for ln in out.split('\n'):
                    if ln.startswith('VP_OBS '):
                        _, nm, v = ln.split(); got.setdefault(nm, []).append(float(v))
                bad = []
                exp = {}
                for nm, kd, v in obs:
                    try:
                        if z3.is_expr(v):
                            if any(w.split('!')[0] in UNINT for w in smt.fvars(v)): raise ValueError
                            v = smt.model_eval(v, model)
                            if kd == 'd':
                                v = float(smt.val_fraction(v)) if real else _fpval(v)
                            elif z3.is_bool(v): v = float(z3.is_true(v))
                            else:
                                nb = v.size(); v = float(sym.sgn(v.as_long(), nb))
                        elif kd == 'i': v = float(sym.sgn(v, 64))
                        else: v = float(v)
                    except Exception:
                        v = None
                    exp.setdefault(nm, []).append(v)
                for nm, vs in exp.items():
                    g = got.get(nm, [])
                    if len(g) != len(vs): bad.append((nm, vs, g)); continue
                    for x, y in zip(vs, g):
                        if x is None: continue
                        if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))): bad.append((nm, x, y))
                if bad: res['witness']['mismatch'].append(repr(bad[:3]))
                else: res['witness']['agree'] += 1
            elif st != 'assume':
                res['witness']['mismatch'].append(st + ' ' + out[-300:])
            if len(res['samples']) < 2:
                res['samples'].append({'entry': job['fn'], 'inputs': {'%s#%d' % (i[0], i[1]): value(model, i, real) for i in inputs[:40]}, 'native': st})
            try: os.unlink(path)
            except OSError: pass
    except Exception as e:
        import traceback
        res['error'] = traceback.format_exc()[-1500:]
    res['smt'] = smt.STAT
    res['wall'] = time.time() - t0
    json.dump(res, open(sys.argv[2], 'w'), default=str)


if __name__ == '__main__':
    main()
