"""Solver layer: feasibility and proof queries, portfolio, model handling, statistics."""
import os, subprocess, tempfile, time, re
from fractions import Fraction
import z3

STAT = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, by={})
_vars_cache = {}
_keep = []


def fvars(e):
    """frozenset of free-variable names of z3 expr e (cached)"""
    i = e.get_id()
    r = _vars_cache.get(i)
    if r is not None: return r
    # iterative post-order
    st = [e]
    while st:
        x = st[-1]
        xi = x.get_id()
        if xi in _vars_cache:
            st.pop(); continue
        ch = x.children()
        if not ch:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                _vars_cache[xi] = frozenset((x.decl().name(),))
            else:
                _vars_cache[xi] = frozenset()
            _keep.append(x); st.pop(); continue
        todo = [c for c in ch if c.get_id() not in _vars_cache]
        if todo:
            st.extend(todo); continue
        s = frozenset().union(*[_vars_cache[c.get_id()] for c in ch])
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            s = s | frozenset(('f!' + x.decl().name(),))
        _vars_cache[xi] = s
        _keep.append(x); st.pop()
    return _vars_cache[i]


def slice_pc(pc, goal):
    need = set(fvars(goal))
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for c in rest:
            v = fvars(c)
            if v & need:
                out.append(c); need |= v; changed = True
            else:
                nr.append(c)
        rest = nr
    # keep original order
    ids = {c.get_id() for c in out}
    return [c for c in pc if c.get_id() in ids]


def model_dict(m):
    d = {}
    for dd in m.decls():
        if dd.arity() == 0:
            d[dd.name()] = (dd(), m[dd])
    return d


def model_eval(expr, md):
    vs = fvars(expr)
    subs = []
    for v in vs:
        t = md.get(v)
        if t is not None: subs.append(t)
    if subs: expr = z3.substitute(expr, *subs)
    return z3.simplify(expr)


def val_fraction(v, prec=40):
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v): return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(prec)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def _mk_solver(kind):
    if kind == 'nlsat':
        return z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'simplify', 'nlsat').solver()
    if kind == 'smt':
        return z3.SimpleSolver()
    return z3.Solver()


def check(cons, timeout_ms, kind='auto'):
    t0 = time.time()
    s = _mk_solver(kind)
    s.set('timeout', int(timeout_ms))
    for c in cons: s.add(c)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STAT['queries'] += 1; STAT['solver_s'] += dt
    rs = str(r)
    STAT[rs] = STAT.get(rs, 0) + 1
    if r == z3.sat:
        try:
            return 'sat', model_dict(s.model())
        except z3.Z3Exception:
            return 'unknown', None
    return rs, None


def smt2(cons, logic=None, produce_model=True):
    s = z3.Solver()
    for c in cons: s.add(c)
    txt = s.to_smt2()
    txt = txt.replace('(check-sat)\n', '')
    hdr = ''
    if logic: hdr += '(set-logic %s)\n' % logic
    if produce_model: hdr = '(set-option :produce-models true)\n' + hdr
    return hdr + txt + '(check-sat)\n' + ('(get-model)\n' if produce_model else '')


def portfolio(cons, timeout_s, logic=None, kinds=('z3', 'z3nlsat', 'cvc5')):
    """run external solvers in parallel; returns verdict ('unsat'/'sat'/'unknown'), name, values-dict or None"""
    t0 = time.time()
    fd, path = tempfile.mkstemp(suffix='.smt2', dir=os.environ.get('VP_TMP', '/tmp'))
    with os.fdopen(fd, 'w') as f: f.write(smt2(cons, logic))
    cmds = {}
    for k in kinds:
        if k == 'z3': cmds[k] = ['z3-new', '-T:%d' % max(1, int(timeout_s)), path]
        elif k == 'z3nlsat': cmds[k] = ['z3', '-T:%d' % max(1, int(timeout_s)), 'tactic.default_tactic=(then simplify purify-arith propagate-values solve-eqs simplify nlsat)', path]
        elif k == 'z3old': cmds[k] = ['z3', '-T:%d' % max(1, int(timeout_s)), path]
        elif k == 'cvc5': cmds[k] = ['cvc5', '--tlimit=%d' % int(timeout_s * 1000), path]
        elif k == 'cvc5cov': cmds[k] = ['cvc5', '--nl-cov', '--tlimit=%d' % int(timeout_s * 1000), path]
        elif k == 'cvc5bv': cmds[k] = ['cvc5', '--tlimit=%d' % int(timeout_s * 1000), path]
    procs = {}
    for k, c in cmds.items():
        try:
            of = tempfile.TemporaryFile('w+')
            procs[k] = (subprocess.Popen(c, stdout=of, stderr=subprocess.DEVNULL, text=True), of)
        except OSError:
            pass
    res = 'unknown'; who = None; vals = None
    end = t0 + timeout_s + 2
    while procs and time.time() < end:
        time.sleep(0.02)
        for k in list(procs):
            p, of = procs[k]
            if p.poll() is not None:
                of.seek(0); out = of.read()
                del procs[k]; of.close()
                first = out.strip().split('\n')[0].strip() if out.strip() else ''
                if first in ('sat', 'unsat'):
                    res = first; who = k
                    if first == 'sat': vals = out
                    break
        if who: break
    for p, of in procs.values():
        p.kill(); p.wait(); of.close()
    os.unlink(path)
    dt = time.time() - t0
    STAT['queries'] += 1; STAT['solver_s'] += dt; STAT[res] = STAT.get(res, 0) + 1
    if who: STAT['by'][who] = STAT['by'].get(who, 0) + 1
    return res, who, vals


_rule_cache = {}


def get_rules(rules, divatom, limit):
    """rules: name -> z3 expr E meaning name^2 == E"""
    out = {}
    for v, e in rules.items():
        k = (e.get_id(), divatom)
        r = _rule_cache.get(k)
        if r is None:
            _keep.append(e)
            try:
                r = ratfun(e, {}, {}, limit, divatom)
            except OverflowError:
                r = False
            _rule_cache[k] = r
        if r: out[v] = r
    return out


ATOM = {}  # opaque terms standing for a variable of a polynomial


def poly_expr(p):
    """polynomial dict -> z3 expr"""
    t = z3.RealVal(0)
    for m, c in p.items():
        x = z3.Q(c.numerator, c.denominator)
        for v, e in m:
            for _ in range(e): x = x * (ATOM[v] if v in ATOM else z3.Real(v))
        t = t + x
    return z3.simplify(t)


def poly_eq_zero(e, rules, limit=4000):
    """try to show that the arithmetic expr e is identically zero by clearing denominators and applying square-root
    rules v^2 -> radicand.  Every step is an identity valid where the denominators are nonzero (already on the path)."""
    for divatom in (True, False):
        try:
            R = get_rules(rules, divatom, limit)
            n, d = ratfun(e, {}, {}, limit, divatom)
            n, d = freduce(n, d, R, limit)
            if len(n) == 0: return True
        except OverflowError:
            pass
    return None


def canon(e, rules, limit=400):
    """rational normal form (numerator, denominator) of e under the rules, or None when too large"""
    try:
        R = get_rules(rules, False, limit)
        n, d = ratfun(e, {}, {}, limit)
        n, d = freduce(n, d, R, limit)
        d, d2 = freduce(d, ONE, R, limit)
        if d2 != ONE or not d: return None
        n, d = mcancel(n, d)
        if len(d) == 1 and () in d:
            c = d[()]
            n = {m: x / c for m, x in n.items()}; d = ONE
        return n, d
    except OverflowError:
        return None


def as_square(n, rules, limit=400):
    """a polynomial that is a constant multiple of a known radicand is that multiple of the squared root"""
    if len(n) < 2: return n
    m0 = max(n)
    for v, (rn, rd) in get_rules(rules, False, limit).items():
        if rd != ONE or not v.startswith('sqrt!'): continue
        rn, rd = freduce(rn, ONE, get_rules(rules, False, limit), limit)
        if rd != ONE or len(rn) != len(n) or m0 not in rn: continue
        c = n[m0] / rn[m0]
        if all(m in rn and n[m] == c * rn[m] for m in n): return {((v, 2),): c}
    return n


def canon_cond(c, rules):
    """comparison with its two sides brought to polynomial normal form under the square-root rules, or None"""
    neg = False
    e = c
    while z3.is_not(e): neg = not neg; e = e.arg(0)
    if not z3.is_app(e) or e.num_args() != 2 or not z3.is_arith(e.arg(0)): return None
    k = e.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ): return None
    cf = canon(e.arg(0) - e.arg(1), rules, 150)
    if cf is None or cf[1] != ONE: return None
    p = poly_expr(as_square(cf[0], rules)); z = z3.RealVal(0)
    r = p <= z if k == z3.Z3_OP_LE else p >= z if k == z3.Z3_OP_GE else p < z if k == z3.Z3_OP_LT else p > z if k == z3.Z3_OP_GT else p == z
    return z3.simplify(z3.Not(r) if neg else r)


def canon_const(n, d):
    if not n: return Fraction(0)
    if len(n) != len(d): return None
    m = next(iter(d))
    if m not in n: return None
    q = n[m] / d[m]
    return q if all(m in d and n[m] == q * d[m] for m in n) else None


# polynomials: dict {monomial(tuple of (var,exp) sorted): Fraction}
ONE = {(): Fraction(1)}


def pconst(c): return {(): c} if c else {}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for v, e in m2: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b, limit):
    if a == ONE: return b
    if b == ONE: return a
    if len(a) * len(b) > limit * 50: raise OverflowError
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > limit: raise OverflowError
    return r


def preduce(p, rules, limit):
    """apply v^2 -> polynomial rules; (rules with a denominator are handled by freduce)"""
    if not rules: return p
    n, d = freduce(p, ONE, {k: r for k, r in rules.items() if r[1] == ONE}, limit)
    return n


def freduce(n, d, rules, limit):
    """reduce numerator n of n/d with rules v^2 -> (num, den); returns new (n, d)"""
    guard = 0
    prods = [(k.split('*'), r[0]) for k, r in rules.items() if '*' in k and r[1] == ONE] if any('*' in k for k in rules) else ()
    while True:
        guard += 1
        if guard > 200: raise OverflowError
        for (v, w), num in prods:  # v*w -> num
            hit = [(m, c) for m, c in n.items() if any(x == v for x, _ in m) and any(x == w for x, _ in m)]
            if hit:
                rest = {m: c for m, c in n.items()}
                g = {}
                for m, c in hit:
                    del rest[m]
                    k = tuple((x, e - (x in (v, w))) for x, e in m if e - (x in (v, w)) > 0)
                    g[k] = g.get(k, 0) + c
                n = padd(rest, pmul(g, num, limit))
                if len(n) > limit: raise OverflowError
                break
        else:
            hit = None
        if hit: continue
        v = None
        for m in n:
            for w, e in m:
                if e >= 2 and w in rules:
                    v = w; break
            if v: break
        if v is None: return n, d
        num, den = rules[v]
        K = max((e // 2 for m in n for w, e in m if w == v), default=0)
        pn = [ONE]; pd = [ONE]
        for _ in range(K):
            pn.append(pmul(pn[-1], num, limit)); pd.append(pmul(pd[-1], den, limit) if den != ONE else ONE)
        groups = {}
        for m, c in n.items():
            e = 0
            rest = []
            for w, x in m:
                if w == v: e = x
                else: rest.append((w, x))
            if e % 2: rest = sorted(rest + [(v, 1)])
            groups.setdefault(e // 2, {})[tuple(rest)] = c
        r = {}
        for k, g in groups.items():
            t = pmul(g, pn[k], limit)
            if den != ONE: t = pmul(t, pd[K - k], limit)
            r = padd(r, t)
        n = r
        if len(n) > limit: raise OverflowError
        if den != ONE: d = pmul(d, pd[K], limit)


def mcancel(n, d):
    """cancel common monomial factors of numerator and denominator (both evaluated where the denominator is nonzero)"""
    if d == ONE or not n: return n, d
    com = None
    for p in (d, n):
        for m in p:
            dm = dict(m)
            com = dm if com is None else {v: min(e, dm[v]) for v, e in com.items() if v in dm}
            if not com: return n, d
    def strip(p):
        r = {}
        for m, c in p.items():
            r[tuple((v, e - com.get(v, 0)) for v, e in m if e - com.get(v, 0) > 0)] = c
        return r
    n = strip(n); d = strip(d)
    if len(d) == 1 and () in d and d[()] != 1:
        c = d[()]; n = {m: x / c for m, x in n.items()}; d = ONE
    return n, d


def ratfun(e, rules, memo, limit, divatom=False):
    i = e.get_id()
    if i in memo: return memo[i]
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_rational_value(e) or z3.is_int_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else Fraction(e.as_long())
        r = (pconst(v), ONE)
    elif k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        ch = [ratfun(c, rules, memo, limit, divatom) for c in e.children()]
        n, d = ch[0]
        for j, (n2, d2) in enumerate(ch[1:]):
            s = 1 if k == z3.Z3_OP_ADD else -1
            if d == d2:
                n = padd(n, n2, s)
            else:
                n = padd(pmul(n, d2, limit), pmul(n2, d, limit), s)
                d = pmul(d, d2, limit)
                n = preduce(n, rules, limit); d = preduce(d, rules, limit)
                n, d = mcancel(n, d)
        r = mcancel(preduce(n, rules, limit), d)
    elif k == z3.Z3_OP_MUL:
        ch = [ratfun(c, rules, memo, limit, divatom) for c in e.children()]
        n, d = ch[0]
        for n2, d2 in ch[1:]:
            n = preduce(pmul(n, n2, limit), rules, limit); d = preduce(pmul(d, d2, limit), rules, limit)
        r = mcancel(n, d)
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratfun(e.arg(0), rules, memo, limit, divatom)
        r = ({m: -c for m, c in n.items()}, d)
    elif k == z3.Z3_OP_DIV and not divatom:
        n1, d1 = ratfun(e.arg(0), rules, memo, limit, divatom)
        n2, d2 = ratfun(e.arg(1), rules, memo, limit, divatom)
        if not n2: raise OverflowError
        r = mcancel(preduce(pmul(n1, d2, limit), rules, limit), preduce(pmul(d1, n2, limit), rules, limit))
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
        ex = e.arg(1); v = Fraction(ex.numerator_as_long(), ex.denominator_as_long())
        if v.denominator != 1 or not 0 <= v <= 8: raise OverflowError
        n, d = ratfun(e.arg(0), rules, memo, limit, divatom)
        rn, rd = ONE, ONE
        for _ in range(int(v)):
            rn = preduce(pmul(rn, n, limit), rules, limit); rd = preduce(pmul(rd, d, limit), rules, limit)
        r = (rn, rd)
    else:
        # opaque atom
        nm = e.decl().name() if z3.is_const(e) else 'e!%d' % i
        if not z3.is_const(e): ATOM[nm] = e
        r = ({((nm, 1),): Fraction(1)}, ONE)
    memo[i] = r
    return r


def is_sos(e, depth=0):
    """syntactic non-negativity: sums/products/quotients of squares, square roots, non-negative numerals"""
    if depth > 60: return False
    if z3.is_rational_value(e): return e.numerator_as_long() >= 0
    if z3.is_int_value(e): return e.as_long() >= 0
    if not z3.is_app(e): return False
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED: return e.num_args() == 0 and e.decl().name().startswith('sqrt!')
    if k == z3.Z3_OP_ADD: return all(is_sos(c, depth + 1) for c in e.children())
    if k == z3.Z3_OP_MUL:
        rest = {}
        for c in e.children():
            if is_sos(c, depth + 1): continue
            i = c.get_id()
            rest[i] = rest.get(i, 0) + 1
        return all(v % 2 == 0 for v in rest.values())
    if k == z3.Z3_OP_DIV: return is_sos(e.arg(0), depth + 1) and is_sos(e.arg(1), depth + 1)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
        return e.arg(1).numerator_as_long() % 2 == 0
    if k == z3.Z3_OP_ITE: return is_sos(e.arg(1), depth + 1) and is_sos(e.arg(2), depth + 1)
    return False
