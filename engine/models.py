"""Models of external functions: the vp_* harness API, libc/libm/libstdc++ leftovers and the OpenMP runtime."""
import re, math
from fractions import Fraction
import z3
import ir, smt
from ir import UNDEF, I8, I32, I64, DOUBLE, PTR

PATTERNS = [(re.compile(p), f) for p, f in [
    (r'_ZSt\d+__throw_', 'm_throw'),
    (r'__cxa_throw|__cxa_rethrow', 'm_throw'),
    (r'_ZStls|_ZNSo|_ZNKSo|_ZSt16__ostream_insert|_ZSt4endl|_ZSt5flush|_ZNSolsE|_ZStrs|_ZNSi', 'm_ostream'),
    (r'_ZNSt8ios_base|_ZNKSt8ios_base|_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt6locale|_ZNKSt5ctype', 'm_ostream'),
    (r'llvm\.(lifetime|dbg|assume|experimental|invariant|donothing|prefetch|stacksave|stackrestore|var\.annotation)', 'm_nop'),
]]


def build(E):
    import sym
    CONT = sym.CONT
    EndPath = sym.EndPath; Unsupported = sym.Unsupported
    M = {}
    real = E.real

    def model(*names):
        def d(f):
            for n in names: M[n] = f
            return f
        return d

    def C(st, v, what='argument'): return E.concretize(st, v, what)

    # ---------------------------------------------------------------- vp api
    def vname(st, args):
        nm = E.cstr(st, args[0])
        k = st.namecnt.get(nm, 0)
        st.namecnt[nm] = k + 1
        return nm, k

    def setdef(st, v, val):
        # give new inputs a default model value so that cached models stay complete
        if st.model is not None:
            d = dict(st.model); d[v.decl().name()] = (v, val); st.model = d

    DEFS = [Fraction(3, 7), Fraction(-5, 11), Fraction(7, 5), Fraction(2, 3), Fraction(-8, 9), Fraction(11, 13), Fraction(5, 4), Fraction(-1, 3), Fraction(9, 8), Fraction(-13, 10)]

    @model('vp_double')
    def vp_double(st, fr, I, a):
        nm, k = vname(st, a)
        v = z3.Real('%s#%d' % (nm, k)) if real else z3.FP('%s#%d' % (nm, k), z3.Float64())
        st.inputs.append((nm, k, 'd', v))
        if real:
            q = DEFS[len(st.inputs) % len(DEFS)]
            setdef(st, v, z3.Q(q.numerator, q.denominator))
        else:
            setdef(st, v, z3.FPVal(float(DEFS[len(st.inputs) % len(DEFS)]), z3.Float64()))
        return v

    def bvin(n, kind):
        def f(st, fr, I, a):
            nm, k = vname(st, a)
            v = z3.BitVec('%s#%d' % (nm, k), n)
            st.inputs.append((nm, k, kind, v))
            setdef(st, v, z3.BitVecVal(len(st.inputs) % 7, n))
            return v
        return f
    M['vp_u8'] = bvin(8, 'u'); M['vp_u32'] = bvin(32, 'u'); M['vp_u64'] = bvin(64, 'u'); M['vp_i32'] = bvin(32, 'i'); M['vp_i64'] = bvin(64, 'i')

    @model('vp_bool')
    def vp_bool(st, fr, I, a):
        nm, k = vname(st, a)
        v = z3.Bool('%s#%d' % (nm, k))
        st.inputs.append((nm, k, 'b', v)); setdef(st, v, z3.BoolVal(False))
        return v

    @model('vp_choose')
    def vp_choose(st, fr, I, a):
        # re-executed after forks: allocate the variable once
        nm = E.cstr(st, a[0])
        k = st.namecnt.get(nm, 0)
        lo, hi = sym.sgn(a[1], 64), sym.sgn(a[2], 64)
        pin = E.pins.get(nm) if hasattr(E, 'pins') else None
        if pin is not None and k < len(pin):
            val = pin[k]
        else:
            val = hi
            for x in range(lo, hi):
                v = z3.Bool('%s#%d=%d' % (nm, k, x))
                # pure nondeterminism: fork without a query
                if st.di < len(st.decs):
                    r = st.decs[st.di]; st.di += 1
                else:
                    s2 = st.clone(); s2.decs.append(False); E.work.append(s2); E.stat['forks'] += 1
                    st.decs.append(True); st.di += 1; r = True
                if r:
                    val = x; break
        st.namecnt[nm] = k + 1
        st.inputs.append((nm, k, 'c', val))
        return val & sym.mask(64)

    @model('vp_concretize')
    def vp_concretize(st, fr, I, a): return C(st, a[0], 'vp_concretize')

    def tobool(c):
        if type(c) is int: return z3.BoolVal(bool(c))
        return c

    @model('vp_assume')
    def vp_assume(st, fr, I, a):
        c = a[0]
        if c is UNDEF: raise EndPath('undef', 'assume')
        if type(c) is int:
            if not c: raise EndPath('ignored', 'assume')
            return None
        E.assume_pc(st, c)
        return None

    @model('vp_assume_eq')
    def vp_assume_eq(st, fr, I, a):
        x, y = a[0], a[1]
        if isinstance(x, (Fraction, float)) and isinstance(y, (Fraction, float)):
            if x != y: raise EndPath('ignored', 'assume')
            return None
        if not real:
            E.assume_pc(st, z3.fpEQ(E.zr(x), E.zr(y))); return None
        d = E.zr(x) - E.zr(y)
        add_rule(st, d)
        E.assume_pc(st, E.zr(x) == E.zr(y))
        return None

    @model('vp_assume_product')
    def vp_assume_product(st, fr, I, a):
        x, y, z = a
        if real and z3.is_expr(x) and z3.is_expr(y) and x.num_args() == 0 and y.num_args() == 0 and not x.eq(y):
            st.rules['%s*%s' % (x.decl().name(), y.decl().name())] = E.zr(z)
            E.assume_pc(st, E.zr(x) * E.zr(y) == E.zr(z)); return None
        return vp_assume_eq(st, fr, I, [E.fop(st, 'fmul', x, y), z])

    def add_rule(st, d):
        try:
            n, den = smt.ratfun(z3.simplify(d), {}, {}, 500)
        except OverflowError:
            return
        if den != smt.ONE: return
        lhs_taken = set()
        for p in st.rules.values(): lhs_taken |= smt.fvars(p)
        cand = {}
        for m, c in n.items():
            for v, e in m: cand.setdefault(v, []).append((m, e, c))
        for v, lst in cand.items():
            if v in st.rules or v in lhs_taken: continue
            if len(lst) == 1 and lst[0][1] == 2 and len(lst[0][0]) == 1:
                c = lst[0][2]
                rhs = {m: -cc / c for m, cc in n.items() if m != lst[0][0]}
                st.rules[v] = smt.poly_expr(rhs)
                return

    @model('vp_assert')
    def vp_assert(st, fr, I, a):
        E.check_assert(st, a[0], E.cstr(st, a[1]))
        return None

    def scale_margin(x, y, f):
        X, Y = E.zr(x), E.zr(y)
        return f(X, Y)

    @model('vp_assert_eq')
    def vp_assert_eq(st, fr, I, a):
        x, y = a[0], a[1]
        msg = E.cstr(st, a[2])
        if x is UNDEF or y is UNDEF: E.check_assert(st, UNDEF, msg); return None
        c = E.fcmp('oeq', x, y)
        margin = None
        if real and type(c) is not int:
            X, Y = E.zr(x), E.zr(y)
            t = z3.Q(1, 1000)
            D = X - Y
            margin = z3.Or(D > t, D < -t)
        E.check_assert(st, c, msg, margin, (x, y) if not (type(x) is float or type(y) is float) else None)
        return None

    @model('vp_assert_le')
    def vp_assert_le(st, fr, I, a):
        x, y = a[0], a[1]
        c = E.fcmp('ole', x, y)
        margin = None
        if real and type(c) is not int: margin = E.zr(x) > E.zr(y) + z3.Q(1, 1000)
        E.check_assert(st, c, E.cstr(st, a[2]), margin)
        return None

    @model('vp_assert_lt')
    def vp_assert_lt(st, fr, I, a):
        x, y = a[0], a[1]
        c = E.fcmp('olt', x, y)
        margin = None
        if real and type(c) is not int: margin = E.zr(x) > E.zr(y) + z3.Q(1, 1000)
        E.check_assert(st, c, E.cstr(st, a[2]), margin)
        return None

    @model('vp_assert_eqi')
    def vp_assert_eqi(st, fr, I, a):
        if a[0] is UNDEF or a[1] is UNDEF: E.check_assert(st, UNDEF, E.cstr(st, a[2])); return None
        E.check_assert(st, E.icmp('eq', a[0], a[1], 64), E.cstr(st, a[2]))
        return None

    @model('vp_observe')
    def vp_observe(st, fr, I, a):
        st.obs.append((E.cstr(st, a[0]), 'd', a[1])); return None

    @model('vp_observe_i')
    def vp_observe_i(st, fr, I, a):
        st.obs.append((E.cstr(st, a[0]), 'i', a[1])); return None

    @model('vp_reach')
    def vp_reach(st, fr, I, a):
        st.reached = set(st.reached); st.reached.add(E.cstr(st, a[0])); return None

    @model('vp_is_symbolic')
    def vp_is_symbolic(st, fr, I, a): return 1

    @model('vp_allow_exit')
    def vp_allow_exit(st, fr, I, a):
        st.allow_exit = bool(a[0]); return None

    @model('vp_threads')
    def vp_threads(st, fr, I, a):
        st.nthreads = a[0]; return None

    @model('vp_ignore')
    def vp_ignore(st, fr, I, a): raise EndPath('ignored', 'vp_ignore')

    @model('vp_note')
    def vp_note(st, fr, I, a):
        E.log('note', E.cstr(st, a[0]), a[1]); return None

    @model('vp_identical')
    def vp_identical(st, fr, I, a):
        # 1 only if both terms are identically equal (no case split)
        x, y = a[0], a[1]
        if x is UNDEF or y is UNDEF: return 0
        if not z3.is_expr(x) and not z3.is_expr(y): return int(x == y)
        if type(x) is float or type(y) is float: return 0
        if not real: return int(z3.is_expr(x) and z3.is_expr(y) and x.eq(y))
        if z3.is_expr(x) and z3.is_expr(y) and (x.eq(y) or z3.simplify(x).eq(z3.simplify(y))): return 1
        d = E.zr(x) - E.zr(y)
        key = ('ident', d.get_id()); r = st.memo.get(key)
        if r is None:
            smt._keep.append(d); r = st.memo[key] = int(bool(smt.poly_eq_zero(d, st.rules, 400)))
        return r

    @model('vp_is_nan')
    def vp_is_nan(st, fr, I, a):
        x = a[0]
        if type(x) is float: return int(x != x)
        if real: return 0
        return z3.simplify(z3.fpIsNaN(x))

    # ---------------------------------------------------------------- abnormal ends
    def m_throw(st, fr, I, a):
        raise EndPath('exit' if st.allow_exit == 2 else 'exception', 'C++ exception (%s)' % (I.a if isinstance(I.a, str) else '?'))
    M['m_throw'] = m_throw
    for n in ('exit', '_exit', 'quick_exit'):
        M[n] = lambda st, fr, I, a: (_ for _ in ()).throw(EndPath('exit', 'exit called'))
    for n in ('abort', '_ZSt9terminatev', '__cxa_pure_virtual', '__clang_call_terminate', 'llvm.trap'):
        M[n] = lambda st, fr, I, a: (_ for _ in ()).throw(EndPath('abort', 'abort called'))

    @model('__assert_fail')
    def assert_fail(st, fr, I, a): raise EndPath('abort', 'assertion failed: ' + E.cstr(st, a[0]))

    @model('m_ostream')
    def m_ostream(st, fr, I, a): return a[0] if a else UNDEF

    @model('m_nop', '__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort', 'fflush', 'fclose', 'setbuf', '__cxa_end_catch', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', 'usleep', 'srand', 'atexit')
    def m_nop(st, fr, I, a): return 0

    @model('__cxa_guard_acquire')
    def guard(st, fr, I, a):
        b = E.load(st, a[0], I8)
        if b == 1: return 0
        E.store(st, a[0], 1, I8)
        return 1

    @model('__cxa_allocate_exception')
    def allocexc(st, fr, I, a): return E.new_obj(st, 1024, 'exc', 'heap')

    @model('printf', 'fprintf', 'puts', 'putchar', 'fwrite', 'fputs', 'fputc', 'putc', 'vprintf')
    def m_printf(st, fr, I, a): return 0

    # ---------------------------------------------------------------- memory
    def alloc(kind, zero=False):
        def f(st, fr, I, a):
            n = C(st, a[0], 'allocation size')
            if n > (1 << 28): raise EndPath('exception', 'huge allocation %d' % n)
            return E.new_obj(st, n, kind, 'heap', zero)
        return f
    M['malloc'] = alloc('malloc'); M['_Znwm'] = alloc('new'); M['_Znam'] = alloc('new[]')
    M['_ZnwmSt11align_val_t'] = alloc('new'); M['_ZnamSt11align_val_t'] = alloc('new[]'); M['_ZnwmRKSt9nothrow_t'] = alloc('new')

    @model('calloc')
    def calloc(st, fr, I, a):
        n = C(st, a[0]) * C(st, a[1])
        return E.new_obj(st, n, 'calloc', 'heap', True)

    @model('posix_memalign')
    def pmem(st, fr, I, a):
        n = C(st, a[2]); E.store(st, a[0], E.new_obj(st, n, 'memalign', 'heap'), PTR); return 0

    @model('aligned_alloc')
    def aalloc(st, fr, I, a): return E.new_obj(st, C(st, a[1]), 'aligned_alloc', 'heap')

    @model('realloc')
    def realloc(st, fr, I, a):
        n = C(st, a[1])
        p = E.new_obj(st, n, 'realloc', 'heap')
        if a[0] != 0:
            o = E.obj(st, a[0], 'realloc')
            E.memcpy(st, p, a[0], min(n, o.size))
            free(st, fr, I, a)
        return p

    @model('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdaPvmSt11align_val_t')
    def free(st, fr, I, a):
        p = a[0]
        if type(p) is not int: p = C(st, p, 'free')
        if p == 0: return None
        o = E.wobj(st, p)
        if o.kind != 'heap' or p & sym.OFFM: raise EndPath('memerr', 'invalid free of ' + o.name)
        if o.freed: raise EndPath('memerr', 'double free')
        o.freed = True
        o.cells = {}
        return None

    def m_memcpy(st, fr, I, a):
        n = C(st, a[2], 'memcpy size')
        if n: E.memcpy(st, a[0] if type(a[0]) is not int and z3.is_expr(a[0]) and a[0].get_id() in E.symptr else C(st, a[0]), C(st, a[1]), n)
        return a[0]
    for n in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.inline.p0.p0.i64', '__memcpy_chk'): M[n] = m_memcpy

    def m_memset(st, fr, I, a):
        n = C(st, a[2], 'memset size')
        v = a[1]
        if type(v) is int: v &= 255
        elif v is UNDEF: return a[0]
        elif v.size() > 8: v = z3.simplify(z3.Extract(7, 0, v))
        if n: E.memset(st, C(st, a[0]), v, n)
        return a[0]
    for n in ('memset', 'llvm.memset.p0.i64', 'llvm.memset.inline.p0.i64'): M[n] = m_memset

    @model('memcmp', 'bcmp')
    def memcmp(st, fr, I, a):
        n = C(st, a[2])
        for i in range(n):
            x = E.load(st, a[0] + i, I8); y = E.load(st, a[1] + i, I8)
            if isinstance(x, sym.PartBits) and isinstance(y, sym.PartBits):
                if x.v is y.v and x.lo == y.lo: continue
                raise Unsupported('memcmp of floating data')
            if not E.decide(st, E.icmp('eq', x, y, 8)):
                return 1 if E.decide(st, E.icmp('ugt', x, y, 8)) else 0xffffffff
        return 0

    @model('strlen')
    def strlen(st, fr, I, a):
        n = 0
        while True:
            b = E.load(st, a[0] + n, I8)
            if b is UNDEF: raise EndPath('memerr', 'strlen of uninitialised')
            if E.decide(st, E.icmp('eq', b, 0, 8)): return n
            n += 1

    @model('strcmp')
    def strcmp(st, fr, I, a):
        i = 0
        while True:
            x = E.load(st, a[0] + i, I8); y = E.load(st, a[1] + i, I8)
            if not E.decide(st, E.icmp('eq', x, y, 8)): return 1 if E.decide(st, E.icmp('ugt', x, y, 8)) else 0xffffffff
            if E.decide(st, E.icmp('eq', x, 0, 8)): return 0
            i += 1

    @model('memchr')
    def memchr(st, fr, I, a):
        n = C(st, a[2])
        for i in range(n):
            x = E.load(st, a[0] + i, I8)
            if E.decide(st, E.icmp('eq', x, a[1] & 255, 8)): return a[0] + i
        return 0

    # ---------------------------------------------------------------- integer intrinsics
    def minmax(pr):
        def f(st, fr, I, a):
            n = I.ty.n if I.ty.k == 'int' else I.ty.el.n
            if isinstance(a[0], list):
                return [E.sel(st, E.icmp(pr, x, y, n), x, y, I.ty.el) for x, y in zip(a[0], a[1])]
            return E.sel(st, E.icmp(pr, a[0], a[1], n), a[0], a[1], I.ty)
        return f
    for w in (8, 16, 32, 64):
        M['llvm.umax.i%d' % w] = minmax('ugt'); M['llvm.umin.i%d' % w] = minmax('ult')
        M['llvm.smax.i%d' % w] = minmax('sgt'); M['llvm.smin.i%d' % w] = minmax('slt')

        def mkabs(w):
            def f(st, fr, I, a):
                v = a[0]
                if type(v) is int: return abs(sym.sgn(v, w)) & sym.mask(w)
                return E.sel(st, E.icmp('slt', v, 0, w), E.ibin(st, 'sub', 0, v, w), v, I.ty)
            return f
        M['llvm.abs.i%d' % w] = mkabs(w)

        def mkov(op, w, signed):
            def f(st, fr, I, a):
                x, y = a[0], a[1]
                r = E.ibin(st, op, x, y, w)
                if type(x) is int and type(y) is int:
                    X, Y = (sym.sgn(x, w), sym.sgn(y, w)) if signed else (x, y)
                    t = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, sym.mask(w))
                    return [r, int(not lo <= t <= hi)]
                ext = z3.SignExt if signed else z3.ZeroExt
                X = ext(w, E.bv(x, w)); Y = ext(w, E.bv(y, w))
                t = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
                o = t != ext(w, z3.Extract(w - 1, 0, t))
                return [r, z3.simplify(o)]
            return f
        for op in ('add', 'sub', 'mul'):
            M['llvm.u%s.with.overflow.i%d' % (op, w)] = mkov(op, w, False)
            M['llvm.s%s.with.overflow.i%d' % (op, w)] = mkov(op, w, True)

        def mksat(op, w):
            def f(st, fr, I, a):
                x, y = a[0], a[1]
                if op == 'sub':
                    return E.sel(st, E.icmp('ugt', x, y, w), E.ibin(st, 'sub', x, y, w), 0, I.ty)
                r = E.ibin(st, 'add', x, y, w)
                return E.sel(st, E.icmp('ult', r, x, w), sym.mask(w), r, I.ty)
            return f
        M['llvm.usub.sat.i%d' % w] = mksat('sub', w); M['llvm.uadd.sat.i%d' % w] = mksat('add', w)

        def mkct(kind, w):
            def f(st, fr, I, a):
                v = a[0]
                if type(v) is int:
                    if kind == 'ctpop': return bin(v).count('1')
                    if kind == 'ctlz': return w - v.bit_length()
                    return (v & -v).bit_length() - 1 if v else w
                if kind == 'ctpop':
                    r = z3.BitVecVal(0, w)
                    for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
                    return z3.simplify(r)
                r = z3.BitVecVal(w, w)
                rng = range(w) if kind == 'ctlz' else range(w - 1, -1, -1)
                for i in rng:
                    val = w - 1 - i if kind == 'ctlz' else i
                    r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(val, w), r)
                return z3.simplify(r)
            return f
        for kd in ('ctpop', 'ctlz', 'cttz'): M['llvm.%s.i%d' % (kd, w)] = mkct(kd, w)

        def mkbs(w):
            def f(st, fr, I, a):
                v = a[0]
                if type(v) is int: return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')
                return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
            return f
        M['llvm.bswap.i%d' % w] = mkbs(w)

        def mkfsh(left, w):
            def f(st, fr, I, a):
                x, y, s = a
                if type(s) is not int: raise Unsupported('symbolic funnel shift')
                s %= w
                if s == 0: return x if left else y
                if not left: s = w - s
                return E.ibin(st, 'or', E.ibin(st, 'shl', x, s, w), E.ibin(st, 'lshr', y, w - s, w), w)
            return f
        M['llvm.fshl.i%d' % w] = mkfsh(True, w); M['llvm.fshr.i%d' % w] = mkfsh(False, w)
        M['llvm.expect.i%d' % w] = lambda st, fr, I, a: a[0]
        M['llvm.is.constant.i%d' % w] = lambda st, fr, I, a: 0
        def mkscmp(w, sg):
            def f(st, fr, I, a):
                n = I.ty.n
                if E.decide(st, E.icmp('eq', a[0], a[1], w)): return 0
                return 1 if E.decide(st, E.icmp('sgt' if sg else 'ugt', a[0], a[1], w)) else sym.mask(n)
            return f
    M['llvm.expect.i1'] = lambda st, fr, I, a: a[0]
    M['llvm.objectsize.i64.p0'] = lambda st, fr, I, a: sym.mask(64)
    M['llvm.is.constant.f64'] = lambda st, fr, I, a: 0
    M['llvm.eh.typeid.for'] = lambda st, fr, I, a: 0
    M['llvm.eh.typeid.for.p0'] = lambda st, fr, I, a: 0
    M['abs'] = M['llvm.abs.i32']; M['labs'] = M['llvm.abs.i64']

    # ---------------------------------------------------------------- libm
    def un(f):
        def g(st, fr, I, a):
            if isinstance(a[0], list): return [f(st, x) for x in a[0]]
            if a[0] is UNDEF: return UNDEF
            return f(st, a[0])
        return g

    def bi(f):
        def g(st, fr, I, a):
            if isinstance(a[0], list): return [f(st, x, y) for x, y in zip(a[0], a[1])]
            if a[0] is UNDEF or a[1] is UNDEF: return UNDEF
            return f(st, a[0], a[1])
        return g

    def conc(x): return isinstance(x, (Fraction, float))

    def reg(names, f):
        for n in names: M[n] = f
    reg(('sqrt', 'llvm.sqrt.f64', 'llvm.sqrt.f32', 'sqrtf', 'sqrtl', 'llvm.sqrt.v2f64'), un(lambda st, x: E.sqrt(st, x)))
    reg(('fabs', 'llvm.fabs.f64', 'llvm.fabs.f32', 'llvm.fabs.v2f64', 'fabsf'), un(lambda st, x: fabs(st, x)))

    def fabs(st, x):
        if conc(x): return abs(x)
        if real and E.o.select == 'fork': return x if E.decide(st, x >= 0) else -x
        return E.fabs(x)

    def fmin(st, x, y):
        if type(x) is float and x != x: return y
        if type(y) is float and y != y: return x
        if not real and not (conc(x) and conc(y)): return z3.fpMin(E.zr(x), E.zr(y))
        return E.sel(st, E.fcmp('olt', x, y), x, y, DOUBLE)

    def fmax(st, x, y):
        if type(x) is float and x != x: return y
        if type(y) is float and y != y: return x
        if not real and not (conc(x) and conc(y)): return z3.fpMax(E.zr(x), E.zr(y))
        return E.sel(st, E.fcmp('ogt', x, y), x, y, DOUBLE)
    reg(('fmin', 'llvm.minnum.f64', 'fminf', 'llvm.minnum.v2f64'), bi(fmin)); reg(('fmax', 'llvm.maxnum.f64', 'fmaxf', 'llvm.maxnum.v2f64'), bi(fmax))

    def fma(st, fr, I, a):
        if isinstance(a[0], list): return [E.fop(st, 'fadd', E.fop(st, 'fmul', x, y), z) for x, y, z in zip(*a)]
        if not real: 
            if M_NAME(I) in ('fma', 'llvm.fma.f64'): return z3.fpFMA(z3.RNE(), E.zr(a[0]), E.zr(a[1]), E.zr(a[2]))
        return E.fop(st, 'fadd', E.fop(st, 'fmul', a[0], a[1]), a[2])

    def M_NAME(I): return I.a[1:] if isinstance(I.a, str) else ''
    reg(('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma', 'llvm.fmuladd.v2f64'), fma)

    def rnd(kind):
        def f(st, x):
            if type(x) is float:
                if x != x or x in (math.inf, -math.inf): return x
                return float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda v: math.floor(abs(v) + 0.5) * (1 if v >= 0 else -1), 'rint': round}[kind](x))
            if type(x) is Fraction:
                if kind == 'floor': return Fraction(math.floor(x))
                if kind == 'ceil': return Fraction(math.ceil(x))
                if kind == 'trunc': return Fraction(math.trunc(x))
                if kind == 'round': return Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))
                return Fraction(round(x))
            if not real:
                rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE()}[kind]
                return z3.fpRoundToIntegral(rm, x)
            kx = z3.simplify(x); smt._keep.append(kx)
            key = (kind, kx.get_id())
            if key in st.memo: return st.memo[key][0]
            smt._keep.append(x)
            if kind == 'floor':
                ip = E.int_part(st, kx)
                if ip is not None: return ip[0]
            if kind == 'trunc':
                return -rnd('floor')(st, -x) if E.decide(st, x < 0) else rnd('floor')(st, x)
            if kind == 'round':
                return -rnd('floor')(st, -x + z3.Q(1, 2)) if E.decide(st, x < 0) else rnd('floor')(st, x + z3.Q(1, 2))
            E.kz += 1
            k = z3.Int('int!%d' % E.kz)
            r = z3.ToReal(k)
            if kind == 'floor': E.addpc(st, z3.And(r <= x, x < r + 1))
            elif kind == 'ceil': E.addpc(st, z3.And(r >= x, x > r - 1))
            else: E.addpc(st, z3.And(r <= x + z3.Q(1, 2), x - z3.Q(1, 2) <= r))
            if st.model is not None:
                try:
                    f = smt.val_fraction(smt.model_eval(x, st.model))
                    if f is None: st.model = None
                    else:
                        v = math.floor(f) if kind == 'floor' else math.ceil(f) if kind == 'ceil' else round(f)
                        setdef(st, k, z3.IntVal(v))
                except z3.Z3Exception:
                    st.model = None
            st.memo[key] = (r, x)
            return r
        return f
    for kd, names in (('floor', ('floor', 'llvm.floor.f64', 'llvm.floor.f32')), ('ceil', ('ceil', 'llvm.ceil.f64')), ('trunc', ('trunc', 'llvm.trunc.f64')),
                      ('round', ('round', 'llvm.round.f64')), ('rint', ('rint', 'nearbyint', 'llvm.rint.f64', 'llvm.nearbyint.f64', 'llvm.roundeven.f64'))):
        reg(names, un(rnd(kd)))

    def lround(st, fr, I, a):
        x = a[0]
        if not real and z3.is_expr(x):
            x = z3.fpRoundToIntegral(z3.RNA(), x)
            return E.cast1(st, 'fptosi', x, DOUBLE, I64)
        if conc(x): return int(rnd('round')(st, x)) & sym.mask(64)
        return E.real_to_int(st, E.sel(st, x >= 0, x + z3.Q(1, 2), x - z3.Q(1, 2), DOUBLE), I64, True)
    reg(('lround', 'llround', 'llvm.lround.i64.f64', 'llvm.llround.i64.f64', 'lrint', 'llvm.lrint.i64.f64'), lround)

    def memo_fn(st, kind, x, mk):
        zx = z3.simplify(E.zr(x), som=real)
        key = (kind, zx.get_id())
        r = st.memo.get(key)
        if r is None:
            smt._keep.append(zx)
            r = (mk(zx), zx)
            st.memo[key] = r
            st.model = None
        return r[0]

    def trig(st, x):
        """(sin,cos)"""
        if type(x) is Fraction and x == 0: return (Fraction(0), Fraction(1))
        if type(x) is float and real: return (math.nan, math.nan)
        if not real:
            if type(x) is float: return (math.sin(x), math.cos(x))
            raise Unsupported('sin/cos in the fp domain')
        # sin(-x) = -sin(x)
        neg = False
        if type(x) is not Fraction:
            zn = z3.simplify(-x, som=True); smt._keep.append(zn)
            if ('trig', zn.get_id()) in st.memo:
                s, c = st.memo[('trig', zn.get_id())][0]
                return (-s, c)

        def mk(zx):
            i = zx.get_id()
            s = z3.Real('sin!%d' % i); c = z3.Real('cos!%d' % i)
            E.addpc(st, s * s + c * c == 1)
            st.rules['sin!%d' % i] = 1 - c * c
            if type(x) is Fraction:
                fs, fc = Fraction(math.sin(x)), Fraction(math.cos(x)); eps = Fraction(1, 10**12)
                E.addpc(st, z3.And(s > E.zr(fs - eps), s < E.zr(fs + eps), c > E.zr(fc - eps), c < E.zr(fc + eps)))
            else:
                E.addpc(st, z3.Implies(zx == 0, z3.And(s == 0, c == 1)))
                E.addpc(st, z3.Implies(zx >= 0, s <= zx)); E.addpc(st, z3.Implies(zx <= 0, s >= zx))
                E.addpc(st, c >= 1 - zx * zx / 2)
                st.user = dict(st.user); st.user['trig'] = st.user.get('trig', ()) + ((zx, s, c),)
            return (s, c)
        return memo_fn(st, 'trig', x, mk)
    reg(('sin', 'llvm.sin.f64', 'sinf'), un(lambda st, x: trig(st, x)[0])); reg(('cos', 'llvm.cos.f64', 'cosf'), un(lambda st, x: trig(st, x)[1]))

    @model('sincos')
    def sincos(st, fr, I, a):
        s, c = trig(st, a[0])
        E.store(st, a[1], s, DOUBLE); E.store(st, a[2], c, DOUBLE)
        return None

    def log(st, x):
        if conc(x):
            if real:
                if type(x) is float: return x if x == math.inf else math.nan
                if x == 1: return Fraction(0)
                if x <= 0: return -math.inf if x == 0 else math.nan
            else:
                return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
        if not real: raise Unsupported('log fp')
        if not conc(x):
            if E.decide(st, x < 0): return math.nan
            if E.decide(st, x == 0): return -math.inf

        def mk(zx):
            l = z3.Real('log!%d' % zx.get_id())
            if type(x) is Fraction:
                f = Fraction(math.log(x)); e = Fraction(1, 10**12)
                E.addpc(st, z3.And(l > E.zr(f - e), l < E.zr(f + e)))
            else:
                # valid tangent / secant facts of the logarithm
                E.addpc(st, l <= zx - 1)
                E.addpc(st, l * zx >= zx - 1)
                for k in (2, 4, 8, 16):
                    lo = Fraction(math.log(k)) - Fraction(1, 10**12); hi = Fraction(math.log(k)) + Fraction(1, 10**12)
                    E.addpc(st, z3.Implies(zx >= k, l >= E.zr(lo))); E.addpc(st, z3.Implies(zx <= k, l <= E.zr(hi)))
                    E.addpc(st, l <= E.zr(hi) + (zx - k) / k)
                for (k2, v2) in [(k2, v2) for k2, v2 in st.memo.items() if k2[0] == 'log']:
                    E.addpc(st, z3.Implies(zx <= v2[1], l <= v2[0])); E.addpc(st, z3.Implies(zx >= v2[1], l >= v2[0]))
            return l
        return memo_fn(st, 'log', x, mk)
    reg(('log', 'llvm.log.f64'), un(log))

    def exp(st, x):
        if conc(x):
            if real and type(x) is Fraction:
                if x == 0: return Fraction(1)
                return Fraction(math.exp(x))
            return math.exp(x) if x < 700 else math.inf
        if not real: raise Unsupported('exp fp')

        def mk(zx):
            l = z3.Real('exp!%d' % zx.get_id())
            E.addpc(st, l > 0); E.addpc(st, l >= 1 + zx); E.addpc(st, z3.Implies(zx <= 0, l <= 1))
            return l
        return memo_fn(st, 'exp', x, mk)
    reg(('exp', 'llvm.exp.f64'), un(exp))

    def cbrt(st, x):
        if conc(x):
            if real and type(x) is Fraction:
                v = Fraction(round(float(abs(x)) ** (1 / 3)))
                if v ** 3 == abs(x): return v if x >= 0 else -v
            else:
                return math.copysign(abs(x) ** (1 / 3), x)
        if not real: raise Unsupported('cbrt fp')

        def mk(zx):
            v = z3.Real('cbrt!%d' % zx.get_id())
            E.addpc(st, v * v * v == zx); E.addpc(st, z3.And((v >= 0) == (zx >= 0)))
            return v
        return memo_fn(st, 'cbrt', x, mk)
    reg(('cbrt',), un(cbrt))

    def ipow(st, x, n):
        if n < 0: return E.fop(st, 'fdiv', E.num(1.0), ipow(st, x, -n))
        r = E.num(1.0)
        for _ in range(n): r = E.fop(st, 'fmul', r, x)
        return r

    def powf(st, x, y):
        if conc(x) and conc(y) and not real:
            try: return math.pow(x, y)
            except (ValueError, OverflowError): return math.nan
        if type(y) is Fraction or (type(y) is float and not real):
            if y == int(y) and abs(y) <= 16: return ipow(st, x, int(y))
            if y == Fraction(1, 2): return E.sqrt(st, x)
            if abs(float(y) - 1 / 3) < 1e-12: return cbrt(st, x)
            if y * 2 == int(y * 2) and abs(y) < 8: return E.fop(st, 'fmul', ipow(st, x, int(math.floor(y))), E.sqrt(st, x))
        if conc(x) and conc(y):
            return Fraction(math.pow(x, y))
        raise Unsupported('pow with general exponent')
    reg(('pow', 'llvm.pow.f64'), bi(powf))
    def powi(st, fr, I, a): return ipow(st, a[0], sym.sgn(a[1], 32))
    reg(('llvm.powi.f64.i32',), powi)

    def ufun(kind):
        def f(st, *xs):
            if all(conc(x) for x in xs):
                try: r = getattr(math, kind)(*[float(x) for x in xs])
                except ValueError: r = math.nan
                return Fraction(r) if real and r == r else r
            if not real: raise Unsupported(kind + ' fp')
            ks = [z3.simplify(E.zr(x), som=True) for x in xs]; smt._keep.extend(ks)
            key = (kind,) + tuple(x.get_id() for x in ks)
            r = st.memo.get(key)
            if r is None:
                for x in xs:
                    if not conc(x): smt._keep.append(x)
                E.kz += 1
                r = (z3.Real('%s!%d' % (kind, E.kz)), None)
                pi = Fraction(math.pi) + Fraction(1, 10**14)
                if kind == 'acos': E.addpc(st, z3.And(r[0] >= 0, r[0] <= E.zr(pi)))
                if kind in ('asin', 'atan', 'atan2'): E.addpc(st, z3.And(r[0] >= -E.zr(pi), r[0] <= E.zr(pi)))
                st.memo[key] = r; st.model = None
            return r[0]
        return f
    for kd in ('acos', 'asin', 'atan', 'tan', 'tanh', 'sinh', 'cosh'): reg((kd,), un(ufun(kd)))
    reg(('atan2',), bi(ufun('atan2')))
    reg(('hypot',), bi(lambda st, x, y: E.sqrt(st, E.fop(st, 'fadd', E.fop(st, 'fmul', x, x), E.fop(st, 'fmul', y, y)))))

    @model('llvm.copysign.f64', 'copysign')
    def copysign(st, fr, I, a):
        x, y = a
        ax = fabs(st, x)
        if not real and not conc(y): return z3.If(z3.fpIsNegative(y), z3.fpNeg(E.zr(ax)), E.zr(ax))
        if conc(y):
            ng = math.copysign(1, y) < 0 if type(y) is float else y < 0
        else: ng = E.decide(st, y < 0)
        return E.fneg(ax) if ng else ax

    @model('fmod')
    def fmod(st, fr, I, a):
        x, y = a
        if conc(x) and conc(y): return E.fop(st, 'frem', x, y)
        if not real:
            raise Unsupported('fmod fp')
        q = rnd('trunc')(st, E.fop(st, 'fdiv', x, y))
        return E.fop(st, 'fsub', x, E.fop(st, 'fmul', q, y))

    E.frem = lambda st, x, y: fmod(st, None, None, (x, y))

    @model('llvm.is.fpclass.f64')
    def fpclass(st, fr, I, a):
        x, m = a
        if conc(x):
            f = float(x)
            b = 0
            if f != f: b = 3
            elif f == math.inf: b = 0x200
            elif f == -math.inf: b = 4
            elif f == 0: b = 0x40 | (0x20 if not real else 0)
            elif f > 0: b = 0x100
            else: b = 8
            return int(bool(b & m))
        if real:
            if (m & 0x1f8 | 0) == 0: return 0       # only nan/inf classes
            if m & 0x1f8 == 0x1f8: return 1
            raise Unsupported('fpclass')
        ts = []
        if m & 3: ts.append(z3.fpIsNaN(x))
        if m & 0x204 == 0x204: ts.append(z3.fpIsInf(x))
        elif m & 0x204: raise Unsupported('fpclass')
        if m & 0x1f8 == 0x1f8: ts.append(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))
        elif m & 0x1f8: raise Unsupported('fpclass')
        return z3.simplify(z3.Or(*ts))

    # ---------------------------------------------------------------- OpenMP
    def nested(st): return st.par is not None and st.par.threads[st.par.cur].nest > 0
    def tid(st): return st.par.cur if st.par is not None and not nested(st) else 0
    def nth(st): return st.par.n if st.par is not None and not nested(st) else 1

    @model('omp_get_ancestor_thread_num')
    def ganc(st, fr, I, a):
        lv = C(st, a[0])
        if lv == 0: return 0
        if lv == 1: return st.par.cur if st.par is not None else sym.mask(32)
        return 0 if nested(st) and lv == 2 else sym.mask(32)

    @model('omp_get_level')
    def glev(st, fr, I, a): return 0 if st.par is None else 1 + st.par.threads[st.par.cur].nest

    @model('omp_get_team_size')
    def gteam(st, fr, I, a):
        lv = C(st, a[0])
        return (st.par.n if st.par is not None else sym.mask(32)) if lv == 1 else 1

    def nest_end(st, fr, v):
        st.par.threads[st.par.cur].nest -= 1

    @model('__kmpc_global_thread_num')
    def gtn(st, fr, I, a): return tid(st)

    @model('omp_get_thread_num')
    def gtn2(st, fr, I, a): return tid(st)

    @model('omp_get_num_threads')
    def gnt(st, fr, I, a): return nth(st)

    @model('omp_get_max_threads', 'omp_get_num_procs')
    def gmt(st, fr, I, a): return st.nthreads

    @model('omp_set_num_threads')
    def snt(st, fr, I, a): st.nthreads = C(st, a[0]); return None

    @model('omp_in_parallel')
    def oip(st, fr, I, a): return int(st.par is not None)

    @model('omp_get_wtime', 'MPI_Wtime', 'clock')
    def wtime(st, fr, I, a): return E.num(0.0) if I.ty.k == 'double' else 0

    @model('__kmpc_push_num_threads')
    def pnt(st, fr, I, a): st.user = dict(st.user); st.user['pnt'] = C(st, a[2]); return None

    @model('__kmpc_fork_call')
    def fork_call(st, fr, I, a):
        nm = E.fnaddr[a[2]]
        fn = E.m.get(nm)
        n = st.user.pop('pnt', None) if 'pnt' in st.user else None
        if n is None: n = st.nthreads
        shared = a[3:]
        if st.par is not None or n <= 1:
            g = E.new_obj(st, 4, 'gtid', 'stack'); E.store(st, g, tid(st), I32)
            E.push(st, fn, [g, g] + shared, None, None)
            if st.par is not None:  # nested regions run with one thread (OpenMP default)
                st.par.threads[st.par.cur].nest += 1
                st.frames[-1].hook = nest_end
                E.store(st, g, 0, I32)
            return CONT
        p = sym.Par()
        p.n = n; p.cur = 0; p.phase = 0; p.dispatch = {}; p.saved = st.frames; p.base = 0; p.single = {}
        p.threads = []
        for t in range(n):
            g = E.new_obj(st, 4, 'gtid', 'stack'); E.store(st, g, t, I32)
            st.frames = []
            E.push(st, fn, [g, g] + shared, None, None)
            p.threads.append(sym.Thread(t, st.frames))
        st.par = p
        st.frames = p.threads[0].frames
        return CONT

    @model('__kmpc_barrier')
    def barrier(st, fr, I, a):
        if st.par is None or nested(st): return None
        fr.ip += 1
        st.par.threads[st.par.cur].status = 'barrier'
        E.schedule(st)
        return CONT

    def static_init(w):
        ty = ir.INT(w)

        def f(st, fr, I, a):
            loc, g, sched, plast, plo, pup, pst, incr, chunk = a
            n = nth(st); t = tid(st)
            lo = sym.sgn(C(st, E.load(st, plo, ty)), w); up = sym.sgn(C(st, E.load(st, pup, ty)), w)
            inc = sym.sgn(C(st, incr), w); ch = sym.sgn(C(st, chunk), w)
            trip = (up - lo) // inc + 1 if (inc > 0 and up >= lo) or (inc < 0 and up <= lo) else 0
            ms = lambda v: v & sym.mask(w)
            if trip == 0:
                if inc > 0: E.store(st, plo, ms(lo), ty); E.store(st, pup, ms(lo - 1 if up >= lo else up), ty)
                E.store(st, plast, 0, I32)
                return None
            if sched == 34 or (sched == 33 and ch < 1):
                small = trip // n; extra = trip % n
                mylo = lo + inc * (t * small + min(t, extra))
                cnt = small + (1 if t < extra else 0)
                myup = mylo + inc * (cnt - 1)
                E.store(st, plo, ms(mylo), ty); E.store(st, pup, ms(myup), ty); E.store(st, pst, ms(trip), ty)
                E.store(st, plast, int((t == n - 1) if small else (t == extra - 1)), I32)
            elif sched == 33:
                mylo = lo + inc * ch * t
                E.store(st, plo, ms(mylo), ty); E.store(st, pup, ms(mylo + inc * (ch - 1)), ty); E.store(st, pst, ms(inc * ch * n), ty)
                E.store(st, plast, int(t == ((trip - 1) // ch) % n), I32)
            else:
                raise Unsupported('omp schedule %d' % sched)
            return None
        return f
    M['__kmpc_for_static_init_4'] = M['__kmpc_for_static_init_4u'] = static_init(32)
    M['__kmpc_for_static_init_8'] = M['__kmpc_for_static_init_8u'] = static_init(64)
    M['__kmpc_for_static_fini'] = m_nop

    def disp_init(w):
        def f(st, fr, I, a):
            loc, g, sched, lo, up, inc, ch = a
            lo = sym.sgn(C(st, lo), w); up = sym.sgn(C(st, up), w); inc = sym.sgn(C(st, inc), w); ch = max(1, sym.sgn(C(st, ch), w))
            if st.par is None or nested(st):
                st.user = dict(st.user); st.user['disp0'] = [(lo, up, inc)] if up >= lo else []
                return None
            p = st.par; t = p.threads[p.cur]
            t.disp += 1
            if t.disp not in p.dispatch:
                chunks = []
                x = lo
                while x <= up:
                    chunks.append((x, min(up, x + inc * (ch - 1)), inc)); x += inc * ch
                p.dispatch[t.disp] = [c for c in chunks]
            t.status = 'run'
            fr.cnt['dispfrom'] = None
            return None
        return f

    def disp_next(w):
        ty = ir.INT(w)

        def f(st, fr, I, a):
            loc, g, plast, plo, pup, pst = a
            if st.par is None or nested(st):
                q = st.user.get('disp0', [])
                if not q: return 0
                c = q[0]; st.user = dict(st.user); st.user['disp0'] = q[1:]
            else:
                p = st.par; t = p.threads[p.cur]
                q = p.dispatch[t.disp]
                mine = fr.cnt.get('dispfrom')
                c = None
                last = all(o.status != 'run' or o is t or o.disp > t.disp for o in p.threads) and p.cur == max(o.tid for o in p.threads)
                pick = None
                for k, ch in enumerate(q):
                    if mine is not None and ch[0] <= mine: continue
                    if p.cur == p.n - 1:
                        pick = k; break
                    # nondeterministic: does this thread take chunk k ?
                    if st.di < len(st.decs):
                        r = st.decs[st.di]; st.di += 1
                    else:
                        s2 = st.clone(); s2.decs.append(False); E.work.append(s2); E.stat['forks'] += 1
                        st.decs.append(True); st.di += 1; r = True
                    if r:
                        pick = k; break
                if pick is None: return 0
                c = q[pick]
                p.dispatch[t.disp] = q[:pick] + q[pick + 1:]
                fr.cnt['dispfrom'] = c[0]
            m = sym.mask(w)
            E.store(st, plo, c[0] & m, ty); E.store(st, pup, c[1] & m, ty); E.store(st, pst, c[2] & m, ty); E.store(st, plast, 0, I32)
            return 1
        return f
    for sfx, w in (('4', 32), ('4u', 32), ('8', 64), ('8u', 64)):
        M['__kmpc_dispatch_init_' + sfx] = disp_init(w); M['__kmpc_dispatch_next_' + sfx] = disp_next(w); M['__kmpc_dispatch_fini_' + sfx] = m_nop
    M['__kmpc_dispatch_deinit'] = m_nop

    def lock(st, l):
        if st.par is not None:
            t = st.par.threads[st.par.cur]; t.locks = t.locks + (l,)

    def unlock(st, l):
        if st.par is not None:
            t = st.par.threads[st.par.cur]; t.locks = tuple(x for x in t.locks if x != l)
    M['__kmpc_critical'] = lambda st, fr, I, a: lock(st, a[2])
    M['__kmpc_critical_with_hint'] = lambda st, fr, I, a: lock(st, a[2])
    M['__kmpc_end_critical'] = lambda st, fr, I, a: unlock(st, a[2])

    @model('__kmpc_reduce', '__kmpc_reduce_nowait')
    def red(st, fr, I, a):
        lock(st, a[6]); return 1

    @model('__kmpc_end_reduce_nowait')
    def endred(st, fr, I, a): unlock(st, a[2]); return None

    @model('__kmpc_end_reduce')
    def endred2(st, fr, I, a):
        unlock(st, a[2])
        return barrier(st, fr, I, a)

    @model('__kmpc_single')
    def single(st, fr, I, a):
        if st.par is None or nested(st): return 1
        p = st.par; t = p.threads[p.cur]
        k = (a[0], fr.cnt.get('single', 0))
        fr.cnt['single'] = fr.cnt.get('single', 0) + 1
        if k in p.single: return 0
        p.single[k] = t.tid
        return 1
    M['__kmpc_end_single'] = m_nop
    M['__kmpc_master'] = M['__kmpc_masked'] = lambda st, fr, I, a: int(tid(st) == 0)
    M['__kmpc_end_master'] = M['__kmpc_end_masked'] = m_nop
    M['__kmpc_flush'] = m_nop
    M['__kmpc_serialized_parallel'] = M['__kmpc_end_serialized_parallel'] = m_nop
    M['omp_init_lock'] = M['omp_destroy_lock'] = m_nop
    M['omp_set_lock'] = lambda st, fr, I, a: lock(st, a[0])
    M['omp_unset_lock'] = lambda st, fr, I, a: unlock(st, a[0])
    return M
