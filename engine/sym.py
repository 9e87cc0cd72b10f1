"""Symbolic executor for LLVM IR (see DESIGN.md).  Paths are explored depth-first; every symbolic branch is decided by the SMT solver."""
import os, sys, time, math, re, struct
from fractions import Fraction
import z3
import ir, smt
from ir import Reg, CExpr, FConst, UNDEF, Zero, ZEROINIT, layout

sys.setrecursionlimit(20000)
z3.set_param('model.completion', False)
Q1 = Fraction(1); Q0 = Fraction(0)
NAN = float('nan'); INF = float('inf')
SH = 32
OFFM = (1 << SH) - 1


DBG = os.environ.get('VP_FORKS')


class EndPath(Exception):
    def __init__(self, status, info=''): self.status = status; self.info = info


class Unsupported(Exception):
    pass


class FPBits:
    """integer that is the bit pattern of floating value v"""
    __slots__ = ('v', 'n')

    def __init__(self, v, n): self.v = v; self.n = n

    def __repr__(self): return 'FPBits(%r)' % (self.v,)


class PartBits:
    """byte slice [lo,lo+n) of an opaque cell value"""
    __slots__ = ('v', 'lo', 'n', 'tot')

    def __init__(self, v, lo, n, tot): self.v = v; self.lo = lo; self.n = n; self.tot = tot


class Obj:
    __slots__ = ('id', 'size', 'cells', 'owner', 'name', 'kind', 'freed', 'zero', 'ro')

    def __init__(self, id, size, name, kind, owner, zero=False):
        self.id = id; self.size = size; self.cells = {}; self.owner = owner; self.name = name; self.kind = kind
        self.freed = False; self.zero = zero; self.ro = False

    def clone(self, owner):
        o = Obj(self.id, self.size, self.name, self.kind, owner, self.zero)
        o.cells = dict(self.cells); o.freed = self.freed; o.ro = self.ro
        return o


class Frame:
    __slots__ = ('fn', 'code', 'ip', 'blk', 'r', 'ret', 'inv', 'cnt', 'hook')

    def __init__(self, fn):
        self.fn = fn; self.r = {}; self.ret = None; self.inv = None; self.cnt = {}; self.hook = None

    def clone(self):
        f = Frame(self.fn)
        f.code = self.code; f.ip = self.ip; f.blk = self.blk; f.r = dict(self.r); f.ret = self.ret; f.inv = self.inv; f.cnt = dict(self.cnt)
        f.hook = self.hook
        return f


class Thread:
    __slots__ = ('tid', 'frames', 'status', 'acc', 'forlb', 'disp', 'locks', 'nest')

    def __init__(self, tid, frames):
        self.tid = tid; self.frames = frames; self.status = 'run'; self.acc = {}; self.disp = 0; self.locks = (); self.nest = 0

    def clone(self):
        t = Thread(self.tid, [f.clone() for f in self.frames])
        t.status = self.status; t.acc = dict(self.acc); t.disp = self.disp; t.locks = self.locks; t.nest = self.nest
        return t


class Par:
    """an active parallel region"""
    __slots__ = ('threads', 'cur', 'n', 'phase', 'base', 'dispatch', 'saved', 'single')

    def clone(self):
        p = Par()
        p.threads = [t.clone() for t in self.threads]; p.cur = self.cur; p.n = self.n; p.phase = self.phase; p.base = self.base
        p.dispatch = {k: list(v) for k, v in self.dispatch.items()}; p.saved = None; p.single = dict(self.single)
        return p


class State:
    nid = 0

    def __init__(self):
        State.nid += 1
        self.id = State.nid
        self.mem = {}
        self.frames = []
        self.pc = []; self.pcids = set()
        self.model = {}
        self.decs = []; self.di = 0
        self.inputs = []        # (name, k, kind, expr/value)
        self.namecnt = {}
        self.obs = []
        self.icount = 0
        self.nobj = 0
        self.rules = {}
        self.memo = {}
        self.par = None
        self.allow_exit = False
        self.trace = []
        self.reached = set()
        self.nthreads = 1
        self.user = {}
        self.heap = 0
        self.nassert = 0

    def clone(self):
        s = State()
        self.mem_share(s)
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc); s.pcids = set(self.pcids); s.model = self.model
        s.decs = list(self.decs); s.di = 0
        s.inputs = list(self.inputs); s.namecnt = dict(self.namecnt); s.obs = list(self.obs)
        s.icount = self.icount; s.nobj = self.nobj; s.rules = dict(self.rules); s.memo = dict(self.memo)
        s.allow_exit = self.allow_exit; s.reached = set(self.reached); s.nthreads = self.nthreads
        s.user = dict(self.user); s.trace = list(self.trace); s.heap = self.heap; s.nassert = self.nassert
        if self.par is not None:
            s.par = self.par.clone()
            s.par.saved = [f.clone() for f in self.par.saved]
            s.frames = s.par.threads[s.par.cur].frames
        return s

    def mem_share(self, s):
        s.mem = dict(self.mem)
        State.nid += 1
        self.id = State.nid      # both lose exclusive ownership


class Options:
    domain = 'real'        # real | fp
    select = 'ite'         # ite | fork (for floating point selects)
    max_paths = 4000
    max_insts = 3000000
    loop = 4000            # visits of one block per frame activation
    time = 300.0
    feas_ms = 400
    prove_ms = 4000
    heavy_s = 25
    threads = 1
    logic = None
    fail_limit = 3
    kinds = ('z3', 'z3nlsat', 'cvc5')


def mask(n): return (1 << n) - 1


def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v


class Engine:
    def __init__(self, module, opts=None, log=None):
        self.m = module
        self.o = opts or Options()
        self.gaddr = {}
        self.gobj = {}
        self.gnames = {}
        self.nglob = 1
        self.fnaddr = {}
        self.log = log or (lambda *a: None)
        self.H = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')}
        for b in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.H[b] = self.intbin
        for b in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): self.H[b] = self.fbin
        for b in ir.CASTS: self.H[b] = self.cast
        self.i2r = {}
        self.real = self.o.domain == 'real'
        self.work = []
        self.results = []
        self.stat = dict(paths=0, insts=0, asserts=0, triv=0, proved=0, failed=0, undecided=0, forks=0, unwind=0, ended={}, funcs=set())
        self.cex = []
        self.undec = []
        self.fconst_cache = {}
        self.kz = 0
        self.ok_states = []
        import models
        self.models = models.build(self)
        self.patterns = models.PATTERNS
        self.mcache = {}
        self.symptr = {}
        self.reached = set()

    # ------------------------------------------------------------ numbers
    def num(self, f):
        """python float constant -> domain value"""
        if self.real:
            if f != f or f in (INF, -INF): return f
            return Fraction(f)
        return f

    def zr(self, v):
        """to z3 arith / fp"""
        if self.real:
            if isinstance(v, Fraction): return z3.Q(v.numerator, v.denominator)
            if isinstance(v, int): return z3.RealVal(v)
            return v
        if isinstance(v, float): return z3.FPVal(v, z3.Float64())
        return v

    def fresh(self, nm):
        self.kz += 1
        nm = '%s!%d' % (nm, self.kz)
        return z3.Real(nm) if self.real else z3.FP(nm, z3.Float64())

    # ------------------------------------------------------------ decisions
    def addpc(self, st, c):
        i = c.get_id()
        if i in st.pcids: return
        smt._keep.append(c)
        st.pc.append(c); st.pcids.add(i)

    def assume_pc(self, st, c, check=True):
        """add c; keep st.model valid if it satisfies c"""
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise EndPath('ignored', 'assume false')
        if st.model is not None:
            v = self.meval(st, c)
            if v is True:
                self.addpc(st, c); return
        if check:
            r, m = self.feas(st, c)
            if r == 'unsat': raise EndPath('ignored', 'assume infeasible')
            self.addpc(st, c)
            st.model = m
        else:
            self.addpc(st, c); st.model = None

    def meval(self, st, c):
        if st.model is None: return None
        try:
            r = smt.model_eval(c, st.model)
        except z3.Z3Exception:
            return None
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        # unassigned variables: complete with default 0/1
        vs = smt.fvars(r)
        if not vs: return None
        return None

    def feas(self, st, c, ms=None):
        c2 = smt.canon_cond(c, st.rules) if st.rules and self.real else None
        if c2 is not None:
            if z3.is_false(c2): return 'unsat', None
            cons = smt.slice_pc(st.pc, c2) + [c2]
            r, m = smt.check(cons, ms or self.o.feas_ms)
            if r == 'unsat': return r, None
        cons = smt.slice_pc(st.pc, c) + [c]
        r, m = smt.check(cons, ms or self.o.feas_ms)
        if r == 'sat':
            if st.model is not None:
                d = dict(st.model); d.update(m); m = d
            elif len(cons) < len(st.pc) + 1:
                m = None
        return r, m

    def known(self, st, c):
        """truth value of c when the path forces it (cheap attempt), else None"""
        i = c.get_id()
        if i in st.pcids: return True
        key = ('kn', i)
        r = st.memo.get(key)
        if r is not None: return r[0]
        smt._keep.append(c)
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in st.pcids: v = False
        else:
            v = None
            mv = self.meval(st, c)
            if mv is not False and self.feas(st, nc, 200)[0] == 'unsat': v = True
            elif mv is not True and self.feas(st, c, 200)[0] == 'unsat': v = False
        if v is not None: st.memo[key] = (v,)
        else: st.memo[key] = (None,)
        return v

    def decide(self, st, c):
        """c: z3 Bool / python bool-int.  returns python bool, forking the state when both are feasible"""
        if type(c) is int or type(c) is bool: return bool(c)
        if c is UNDEF: raise EndPath('undef', 'branch on undefined value')
        if st.di < len(st.decs):
            r = st.decs[st.di]; st.di += 1
            return r
        c = z3.simplify(c)
        if z3.is_true(c): r = True
        elif z3.is_false(c): r = False
        else:
            nc = z3.simplify(z3.Not(c))
            if c.get_id() in st.pcids: r = True
            elif nc.get_id() in st.pcids: r = False
            else:
                mv = self.meval(st, c)
                if mv is None:
                    rt, mt = self.feas(st, c)
                    if rt == 'unsat':
                        mv = False; first = ('known', None)
                        rf, mf = 'sat', st.model
                        r = False
                        self.addpc(st, nc)
                        st.decs.append(r); st.di += 1
                        return r
                    cur_m = mt
                    mv = True
                    known = rt == 'sat'
                else:
                    cur_m = st.model
                # side mv feasible (or unknown); test the other
                oc = nc if mv else c
                sc = c if mv else nc
                ro, mo = self.feas(st, oc)
                if ro != 'unsat':
                    s2 = st.clone()
                    s2.decs.append(not mv)
                    self.addpc(s2, oc); s2.model = mo
                    self.work.append(s2)
                    self.stat['forks'] += 1
                    if DBG: sys.stderr.write('FORK %s %s %s\n' % (ro, str(c)[:400], [f.fn.name[:60] for f in st.frames[-4:]]))
                    self.addpc(st, sc); st.model = cur_m
                else:
                    self.addpc(st, sc); st.model = cur_m
                r = mv
        st.decs.append(r); st.di += 1
        return r

    def concretize(self, st, v, what='', limit=4096):
        """int BV expr -> python int, forking over all feasible values"""
        if type(v) is int: return v
        if v is UNDEF: raise EndPath('undef', 'undefined value used as ' + what)
        if isinstance(v, FPBits): raise Unsupported('concretize FPBits')
        if z3.is_bool(v): return 1 if self.decide(st, v) else 0
        v = z3.simplify(v)
        if z3.is_bv_value(v): return v.as_long()
        for _ in range(limit):
            if st.di < len(st.decs):
                val, taken = st.decs[st.di]; st.di += 1
                if taken: return val
                continue
            val = None
            if st.model is not None:
                e = smt.model_eval(v, st.model)
                if z3.is_bv_value(e): val = e.as_long()
            if val is None:
                t = z3.BitVec('cz!%d' % self.kz, v.size()); self.kz += 1
                r, m = smt.check(smt.slice_pc(st.pc, v) + [t == v], 5000)
                if r == 'unsat': raise EndPath('ignored', 'infeasible')
                if r != 'sat': raise Unsupported('cannot concretize ' + what)
                val = m[t.decl().name()][1].as_long()
            eq = v == val
            ne = z3.simplify(z3.Not(eq))
            r, m = self.feas(st, ne, 5000)
            if r != 'unsat':
                s2 = st.clone(); s2.decs.append((val, False)); self.addpc(s2, ne); s2.model = m
                self.work.append(s2); self.stat['forks'] += 1
            self.addpc(st, z3.simplify(eq))
            if st.model is not None and self.meval(st, eq) is not True:
                r, m = self.feas(st, eq, 5000); st.model = m if r == 'sat' else None
            st.decs.append((val, True)); st.di += 1
            return val
        raise Unsupported('too many values for ' + what)

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name, kind, zero=False):
        st.nobj += 1
        oid = 1000000 + st.nobj
        o = Obj(oid, size, name, kind, st.id, zero)
        st.mem[oid] = o
        return oid << SH

    def obj(self, st, addr, what='access'):
        oid = addr >> SH
        o = st.mem.get(oid)
        if o is None:
            o = self.gobj.get(oid)
            if o is None:
                raise EndPath('memerr', '%s: %s pointer 0x%x' % (what, 'null' if addr < 4096 else 'wild', addr))
        return o

    def wobj(self, st, addr):
        o = self.obj(st, addr, 'store')
        if o.owner != st.id:
            o = o.clone(st.id)
            st.mem[o.id] = o
        return o

    def glob(self, nm):
        while nm in self.m.aliases: nm = self.m.aliases[nm]
        a = self.gaddr.get(nm)
        if a is not None: return a
        oid = self.nglob; self.nglob += 1
        a = oid << SH
        self.gaddr[nm] = a
        if nm in self.m.funcs or nm in self.m.decls or nm not in self.m.globals:
            o = Obj(oid, 0, nm, 'func', None)
            self.gobj[oid] = o
            self.fnaddr[a] = nm
            return a
        ty, init, const = self.m.parse_global(nm)
        layout(ty)
        o = Obj(oid, ty.size, nm, 'global', None)
        o.ro = const
        self.gobj[oid] = o
        if init is None:
            o.zero = True
            o.kind = 'extern'
            if nm == '@__libc_single_threaded': o.cells[0] = (1, 1)
            if 'St4cout' in nm or 'St4cerr' in nm: o.size = 512
        else:
            self.init_cells(o, 0, ty, init)
        return a

    def init_cells(self, o, off, ty, v):
        if v is UNDEF: return
        k = ty.k
        layout(ty)
        if isinstance(v, Zero):
            # zero fill range
            for i in range(0, ty.size // 8): o.cells[off + 8 * i] = (0, 8)
            for i in range(ty.size // 8 * 8, ty.size): o.cells[off + i] = (0, 1)
            return
        if isinstance(v, bytes):
            for i, b in enumerate(v): o.cells[off + i] = (b, 1)
            return
        if k in ('arr', 'vec'):
            layout(ty.el)
            for i, x in enumerate(v): self.init_cells(o, off + i * ty.el.size, ty.el, x)
        elif k == 'struct':
            for f, e, x in zip(ty.offs, ty.els, v): self.init_cells(o, off + f, e, x)
        else:
            o.cells[off] = (self.cval(v, ty), ty.size)

    def cval(self, v, ty):
        """constant operand -> value"""
        if type(v) is int or v is UNDEF: return v
        if isinstance(v, FConst):
            if not self.real and ty is not None and ty.k == 'float': return z3.FPVal(v.f, z3.Float32())
            return self.num(v.f)
        if isinstance(v, CExpr):
            if v.op == 'glob': return self.glob(v.a[0])
            if v.op == 'gep':
                bt, ops = v.a
                base = self.cval(ops[0][1], ops[0][0])
                layout(bt)
                cur = bt; off = 0
                for n, (t, x) in enumerate(ops[1:]):
                    x = self.cval(x, t)
                    if n == 0:
                        off += sgn(x, t.n) * bt.size
                    elif cur.k == 'struct':
                        layout(cur); off += cur.offs[x]; cur = cur.els[x]
                    else:
                        cur = cur.el; layout(cur); off += sgn(x, t.n) * cur.size
                return base + off
            if v.op == 'cast':
                op, st, x, dt = v.a
                x = self.cval(x, st)
                if op == 'trunc': x &= mask(dt.n)
                return x
            if v.op == 'bin':
                op, ops = v.a
                a = self.cval(ops[0][1], ops[0][0]); b = self.cval(ops[1][1], ops[1][0])
                return self.ibin(None, op, a, b, ops[0][0].n)
            if v.op == 'icmp':
                pr, ops = v.a
                a = self.cval(ops[0][1], ops[0][0]); b = self.cval(ops[1][1], ops[1][0])
                return self.icmp(pr, a, b, 64)
        if isinstance(v, list):
            if ty is not None and ty.k in ('vec', 'arr'): return [self.cval(x, ty.el) for x in v]
            if ty is not None and ty.k == 'struct': return [self.cval(x, e) for x, e in zip(v, ty.els)]
            return [self.cval(x, None) for x in v]
        if isinstance(v, Zero):
            return self.cval(self.m.zero_of(ty), ty)
        return v

    def ev(self, fr, v, ty=None):
        if type(v) is Reg:
            try:
                return fr.r[v]
            except KeyError:
                return UNDEF
        if type(v) is int: return v
        return self.cval(v, ty)

    def access(self, st, addr, size, write, atomic=False):
        """bounds check"""
        if type(addr) is not int:
            addr = self.concretize(st, addr, 'address')
        o = self.obj(st, addr, 'store' if write else 'load')
        off = addr & OFFM
        if o.freed: raise EndPath('memerr', 'use after free of ' + o.name)
        if off + size > o.size and o.kind != 'extern':
            raise EndPath('memerr', 'out of bounds %s: offset %d size %d of %s (%d bytes)' % ('write' if write else 'read', off if off < 1 << 31 else off - (1 << 32), size, o.name, o.size))
        if st.par is not None and not atomic: self.race(st, o, off, size, write)
        return addr, o, off

    def race(self, st, o, off, size, write):
        p = st.par
        if o.ro or o.kind == 'func': return
        me = p.threads[p.cur]
        key0 = o.id
        for t in p.threads:
            if t is me: continue
            d = t.acc.get(key0)
            if d is None: continue
            for (lo, hi, w, locks) in d:
                if (w or write) and lo < off + size and off < hi and not (locks and me.locks and set(locks) & set(me.locks)):
                    raise EndPath('race', 'data race on %s[%d..%d) between threads %d and %d (%s/%s)' % (o.name, off, off + size, t.tid, me.tid, 'write' if w else 'read', 'write' if write else 'read'))
        e = (off, off + size, write, me.locks)
        d = me.acc.get(key0)
        if d is None: me.acc[key0] = (e,)
        elif e not in d: me.acc[key0] = d + (e,)

    def table(self, st, addr):
        """constant lookup table of moderate size?"""
        try: o = self.obj(st, addr)
        except EndPath: return False
        return o.ro and o.size <= 4096 or (st.par is None and not o.ro and o.kind not in ('func', 'extern') and o.size <= getattr(self.o, 'merge', 0))

    def merge_slots(self, st, addr, size):
        """places a symbolic pointer into a small writable object may point at (option merge)"""
        base, x, sc = self.symptr[addr.get_id()]
        o = self.obj(st, base, 'access'); off = base & OFFM
        if o.ro or o.freed or st.par is not None or sc < size or off + size > o.size or off >= 1 << 31: return None
        cnt = (o.size - off - size) // sc + 1
        if not self.decide(st, z3.ULT(x, z3.BitVecVal(cnt, 64))): return None
        return o, off, x, sc, cnt

    def merge_load(self, st, addr, ty):
        m = self.merge_slots(st, addr, ty.size) if ty.k == 'int' and ty.n % 8 == 0 else None
        if m is None: return None
        o, off, x, sc, cnt = m
        r = None
        for k in range(cnt):
            v = self.oload(st, o, off + k * sc, ty)
            if v is UNDEF: v = z3.BitVec('undef!%d' % self.kz, ty.n); self.kz += 1
            if type(v) is int: v = z3.BitVecVal(v, ty.n)
            elif not (z3.is_expr(v) and z3.is_bv(v)): return None
            r = v if r is None else z3.If(x == k, v, r)
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def merge_store(self, st, addr, v, ty):
        if ty.k != 'int' or ty.n % 8 or not (type(v) is int or z3.is_expr(v) and z3.is_bv(v)): return False
        m = self.merge_slots(st, addr, ty.size)
        if m is None: return False
        o, off, x, sc, cnt = m
        if o.owner != st.id:
            o = o.clone(st.id); st.mem[o.id] = o
        if type(v) is int: v = z3.BitVecVal(v, ty.n)
        for k in range(cnt):
            w = self.oload(st, o, off + k * sc, ty)
            if w is UNDEF: w = z3.BitVec('undef!%d' % self.kz, ty.n); self.kz += 1
            elif type(w) is int: w = z3.BitVecVal(w, ty.n)
            r = z3.simplify(z3.If(x == k, v, w))
            self.ostore(st, o, off + k * sc, r.as_long() if z3.is_bv_value(r) else r, ty)
        return True

    def symptr_off(self, p, d):
        base, x, sc = self.symptr[p.get_id()]
        e = z3.simplify(p + z3.BitVecVal(d & mask(64), 64))
        smt._keep.append(e)
        self.symptr[e.get_id()] = ((base + d) & mask(64), x, sc)
        return e

    def table_load(self, st, addr, ty):
        """read of a constant table at a symbolic index: one expression instead of one path per index"""
        base, x, sc = self.symptr[addr.get_id()]
        o = self.obj(st, base, 'load'); off = base & OFFM
        if not o.ro: return self.merge_load(st, addr, ty)
        if off + ty.size > o.size or sc <= 0 or ty.k != 'int' or ty.n % 8: return None
        cnt = (o.size - off - ty.size) // sc + 1
        low = off // sc if off < 1 << 31 else 0
        if not self.decide(st, z3.ULT(x, z3.BitVecVal(cnt, 64))):
            return None  # negative or beyond the end: concrete treatment
        vals = [self.oload(st, o, off + k * sc, ty) for k in range(cnt)]
        if not all(type(v) is int for v in vals): return None
        b = max(1, (cnt - 1).bit_length())
        xs = z3.simplify(z3.Extract(b - 1, 0, x))
        vals += [vals[-1]] * ((1 << b) - cnt)
        def tree(lo, n, bit):
            if all(v == vals[lo] for v in vals[lo:lo + n]): return z3.BitVecVal(vals[lo], ty.n)
            h = n // 2
            return z3.If(z3.Extract(bit, bit, xs) == 1, tree(lo + h, h, bit - 1), tree(lo, h, bit - 1))
        r = z3.simplify(tree(0, 1 << b, b - 1))
        return r.as_long() if z3.is_bv_value(r) else r

    def load(self, st, addr, ty, atomic=False):
        if type(addr) is not int and z3.is_expr(addr) and addr.get_id() in self.symptr:
            r = self.table_load(st, addr, ty)
            if r is not None: return r
        addr, o, off = self.access(st, addr, ty.size, False, atomic)
        return self.oload(st, o, off, ty)

    def oload(self, st, o, off, ty):
        k = ty.k
        if k == 'vec':
            layout(ty.el)
            if ty.el.n == 1:
                x = self.oload(st, o, off, ir.INT(ty.n))
                if type(x) is not int: raise Unsupported('vec i1 load')
                return [(x >> i) & 1 for i in range(ty.n)]
            return [self.oload(st, o, off + i * ty.el.size, ty.el) for i in range(ty.n)]
        if k == 'struct':
            return [self.oload(st, o, off + f, e) for f, e in zip(ty.offs, ty.els)]
        if k == 'arr':
            layout(ty.el)
            return [self.oload(st, o, off + i * ty.el.size, ty.el) for i in range(ty.n)]
        size = ty.size
        c = o.cells.get(off)
        if c is not None and c[1] == size:
            return self.conv(c[0], ty)
        # gather bytes
        bs = self.bytes_of(st, o, off, size)
        return self.from_bytes(bs, ty)

    def bytes_of(self, st, o, off, size):
        """list of byte values: int, BV8, or PartBits pieces / UNDEF"""
        out = []
        i = off
        end = off + size
        while i < end:
            hit = None
            for d in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15):
                c = o.cells.get(i - d)
                if c is not None:
                    if c[1] > d: hit = (i - d, c)
                    break
            if hit is None:
                out.append(0 if o.zero else UNDEF)
                i += 1
                continue
            base, (v, sz) = hit
            for j in range(i - base, sz):
                if i >= end: break
                out.append(self.byte(v, j, sz))
                i += 1
        return out

    def byte(self, v, j, sz):
        if type(v) is int: return (v >> (8 * j)) & 255
        if v is UNDEF: return UNDEF
        if isinstance(v, PartBits): return PartBits(v.v, v.lo + j, 1, v.tot)
        if z3.is_expr(v) and z3.is_bv(v): return z3.simplify(z3.Extract(8 * j + 7, 8 * j, v))
        if z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if j == 0 else 0
        if isinstance(v, Fraction) or isinstance(v, float):
            f = float(v)
            if sz == 8 and (f != f or Fraction(f) == v if not (isinstance(v, float)) else True):
                return struct.pack('<d', f)[j]
        return PartBits(v, j, 1, sz)

    def from_bytes(self, bs, ty):
        size = len(bs)
        if all(type(b) is int for b in bs):
            x = 0
            for i, b in enumerate(bs): x |= b << (8 * i)
            return self.conv(x, ty)
        if all(b is UNDEF for b in bs): return self.undef(ty)
        b0 = bs[0]
        if isinstance(b0, PartBits) and all(isinstance(b, PartBits) and b.v is b0.v and b.lo == b0.lo + i for i, b in enumerate(bs)):
            if b0.lo == 0 and size == b0.tot: return self.conv(b0.v, ty)
            return PartBits(b0.v, b0.lo, size, b0.tot)
        if any(b is UNDEF for b in bs) :
            bs = [0 if b is UNDEF else b for b in bs] if not any(isinstance(b, PartBits) for b in bs) else bs
        if any(isinstance(b, PartBits) or b is UNDEF for b in bs):
            # list of parts: opaque chunk, stored/loaded verbatim
            return ('chunk', tuple(bs))
        es = [z3.BitVecVal(b, 8) if type(b) is int else b for b in bs]
        e = z3.simplify(z3.Concat(*reversed(es))) if len(es) > 1 else es[0]
        return self.conv(e, ty)

    def undef(self, ty):
        return UNDEF

    def conv(self, v, ty):
        """reinterpret cell value v (same size) as ty"""
        k = ty.k
        if k == 'double':
            if type(v) is int: return self.num(struct.unpack('<d', struct.pack('<Q', v & mask(64)))[0])
            if isinstance(v, FPBits): return v.v
            if z3.is_expr(v) and z3.is_bv(v):
                if not self.real: return z3.fpBVToFP(v, z3.Float64())
                raise Unsupported('symbolic int bits as double')
            return v
        if k == 'float':
            if type(v) is int: return self.num(struct.unpack('<f', struct.pack('<I', v & mask(32)))[0]) if self.real else z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, 32), z3.Float32()))
            if isinstance(v, FPBits): return v.v
            if z3.is_expr(v) and z3.is_bv(v):
                if not self.real: return z3.fpBVToFP(v, z3.Float32())
                raise Unsupported('symbolic int bits as float')
            return v
        if k in ('int', 'ptr'):
            n = ty.n if k == 'int' else 64
            if type(v) is int:
                return v & mask(n)
            if isinstance(v, Fraction) or isinstance(v, float): return self.bits(v, n)
            if z3.is_expr(v):
                if z3.is_bv(v):
                    if n == 1: return z3.simplify(z3.Extract(0, 0, v) == 1)
                    if v.size() != n: return z3.simplify(z3.Extract(n - 1, 0, v))
                    return v
                if z3.is_bool(v):
                    if n == 1: return v
                    return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
                return self.bits(v, n)
            return v
        return v

    def bits(self, v, n):
        if isinstance(v, float):
            return struct.unpack('<Q', struct.pack('<d', v))[0] if n == 64 else FPBits(v, n)
        if isinstance(v, Fraction):
            try:
                f = float(v)
                if n == 64 and Fraction(f) == v: return struct.unpack('<Q', struct.pack('<d', f))[0]
                if n == 32:
                    b = struct.pack('<f', f)
                    if Fraction(struct.unpack('<f', b)[0]) == v: return struct.unpack('<I', b)[0]
            except OverflowError:
                pass
            return FPBits(v, n)
        if z3.is_expr(v) and not self.real:
            w = z3.simplify(v)
            if z3.is_fp_value(w): return z3.simplify(z3.fpToIEEEBV(w)).as_long()
        return FPBits(v, n)

    def store(self, st, addr, v, ty, atomic=False):
        if type(addr) is not int and z3.is_expr(addr) and addr.get_id() in self.symptr and self.merge_store(st, addr, v, ty): return
        addr, o, off = self.access(st, addr, ty.size, True, atomic)
        if o.ro: raise EndPath('memerr', 'write to constant ' + o.name)
        if o.owner != st.id:
            o = o.clone(st.id); st.mem[o.id] = o
        self.ostore(st, o, off, v, ty)

    def ostore(self, st, o, off, v, ty):
        k = ty.k
        if k == 'vec' or k == 'arr':
            layout(ty.el)
            if isinstance(v, list):
                if ty.el.n == 1 and k == 'vec':
                    x = 0
                    for i, b in enumerate(v):
                        if type(b) is not int: raise Unsupported('vec i1 store')
                        x |= b << i
                    return self.ostore(st, o, off, x, ir.INT(ty.n))
                for i, x in enumerate(v): self.ostore(st, o, off + i * ty.el.size, x, ty.el)
                return
        elif k == 'struct':
            if isinstance(v, list):
                for f, e, x in zip(ty.offs, ty.els, v): self.ostore(st, o, off + f, x, e)
                return
        size = ty.size
        if k == 'int' and ty.n == 1 and z3.is_expr(v) and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if isinstance(v, FPBits) and v.n == size * 8: v = v.v
        self.clear(o, off, size)
        if isinstance(v, tuple) and v[0] == 'chunk':
            for i, b in enumerate(v[1]):
                if b is not UNDEF: o.cells[off + i] = (b, 1)
            return
        if v is UNDEF:
            if o.zero: o.cells[off] = (UNDEF, size)
            return
        o.cells[off] = (v, size)

    def clear(self, o, off, size):
        """remove cells overlapping [off,off+size), splitting partial overlaps"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == size:
            del cells[off]
            return
        for d in range(1, 16):
            c = cells.get(off - d)
            if c is not None:
                if c[1] > d:
                    del cells[off - d]
                    v, sz = c
                    for j in range(sz):
                        p = off - d + j
                        if p < off or p >= off + size: cells[p] = (self.byte(v, j, sz), 1)
                break
        for p in range(off, off + size):
            c = cells.get(p)
            if c is not None:
                del cells[p]
                v, sz = c
                if p + sz > off + size:
                    for j in range(off + size - p, sz): cells[p + j] = (self.byte(v, j, sz), 1)

    def memcpy(self, st, dst, src, n):
        if n == 0: return
        src, so, soff = self.access(st, src, n, False)
        if type(dst) is not int and z3.is_expr(dst) and dst.get_id() in self.symptr and n <= 32 and n % 4 == 0 and st.par is None:
            w = 8 if n % 8 == 0 else 4
            parts = [self.oload(st, so, soff + k, ir.INT(8 * w)) for k in range(0, n, w)]
            if all(type(v) is int or z3.is_expr(v) and z3.is_bv(v) for v in parts) and self.merge_slots(st, dst, n) is not None:
                for k, v in enumerate(parts): self.merge_store(st, self.symptr_off(dst, w * k), v, ir.INT(8 * w))
                return
        dst, do, doff = self.access(st, dst, n, True)
        # snapshot source cells
        items = []
        end = soff + n
        cells = so.cells
        if n > len(cells) * 2:
            offs = sorted(k for k in cells if k + cells[k][1] > soff and k < end)
        else:
            offs = [k for k in range(soff, end) if k in cells]
            for d in range(1, 16):
                c = cells.get(soff - d)
                if c is not None:
                    if c[1] > d: offs.insert(0, soff - d)
                    break
        for k in offs:
            v, sz = cells[k]
            if k >= soff and k + sz <= end: items.append((k - soff, v, sz))
            else:
                for j in range(sz):
                    if soff <= k + j < end: items.append((k + j - soff, self.byte(v, j, sz), 1))
        if do.ro: raise EndPath('memerr', 'write to constant ' + do.name)
        if do.owner != st.id:
            do = do.clone(st.id); st.mem[do.id] = do
        # clear destination
        self.clear_range(do, doff, n)
        if so.zero and not do.zero:
            # materialise zeros
            have = set()
            for k, v, sz in items:
                for j in range(sz): have.add(k + j)
            for j in range(n):
                if j not in have: items.append((j, 0, 1))
        elif do.zero and not so.zero:
            have = set()
            for k, v, sz in items:
                for j in range(sz): have.add(k + j)
            for j in range(n):
                if j not in have: items.append((j, UNDEF, 1))
        for k, v, sz in items: do.cells[doff + k] = (v, sz)

    def clear_range(self, o, off, n):
        if n <= 64:
            self.clear(o, off, n); return
        cells = o.cells
        self.clear(o, off, 1)
        self.clear(o, off + n - 1, 1)
        if n > len(cells):
            for k in [k for k in cells if off <= k < off + n]: del cells[k]
        else:
            for k in range(off, off + n): cells.pop(k, None)

    def memset(self, st, dst, val, n):
        if n == 0: return
        dst, do, doff = self.access(st, dst, n, True)
        if do.owner != st.id:
            do = do.clone(st.id); st.mem[do.id] = do
        self.clear_range(do, doff, n)
        if type(val) is not int:
            for i in range(n): do.cells[doff + i] = (val, 1)
            return
        i = 0
        if n == do.size and val == 0:
            do.zero = True
            return
        w8 = int.from_bytes(bytes([val] * 8), 'little')
        while i + 8 <= n and (doff + i) % 8 == 0:
            do.cells[doff + i] = (w8, 8); i += 8
        while i < n:
            if (doff + i) % 8 == 0 and i + 8 <= n:
                do.cells[doff + i] = (w8, 8); i += 8
            else:
                do.cells[doff + i] = (val, 1); i += 1

    def cstr(self, st, addr):
        out = []
        while True:
            b = self.load(st, addr, ir.I8)
            if type(b) is not int or b == 0: break
            out.append(chr(b)); addr += 1
            if len(out) > 2000: break
        return ''.join(out)

    # ------------------------------------------------------------ run
    def run(self, entry):
        self.t0 = time.time()
        st = State()
        st.nthreads = self.o.threads
        fn = self.m.get(entry)
        if fn is None: raise Unsupported('no entry ' + entry)
        self.push(st, fn, [])
        # constructors of global objects run first, in order
        g = self.m.globals.get('@llvm.global_ctors')
        if g:
            cs = re.findall(r'i32 (\d+), ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', g)
            for pr, nm in reversed(sorted(cs, key=lambda x: int(x[0]))):
                st.frames[-1].ip = -1
                self.push(st, self.m.get(nm), [])
        self.work = [st]
        while self.work:
            if time.time() - self.t0 > self.o.time:
                self.stat['timeout'] = True; break
            if self.stat['paths'] >= self.o.max_paths:
                self.stat['pathlimit'] = True; break
            if len(self.cex) >= self.o.fail_limit: break
            st = self.work.pop()
            self.run_path(st)
        self.stat['left'] = len(self.work)

    def run_path(self, st):
        try:
            self.exec(st)
        except EndPath as e:
            self.end(st, e.status, e.info)
        except (Unsupported, SyntaxError) as e:
            self.end(st, 'unsupported', str(e) + ' at ' + self.where(st))
        except z3.Z3Exception as e:
            self.end(st, 'unsupported', 'z3: ' + str(e) + ' at ' + self.where(st))

    def where(self, st):
        try:
            fr = st.frames[-1]
            return fr.fn.name + ' ' + repr(fr.code[fr.ip])[:200] + ' <- ' + ' <- '.join(f.fn.name for f in reversed(st.frames[-6:-1]))
        except Exception:
            return '?'

    def end(self, st, status, info=''):
        self.stat['insts'] += st.icount
        self.stat['ended'][status] = self.stat['ended'].get(status, 0) + 1
        if status == 'ignored': return
        self.stat['paths'] += 1
        if status == 'unsupported':
            self.undec.append(dict(kind='unsupported', msg=info))
            return
        if status == 'ok' or (status in ('exit',) and st.allow_exit):
            self.reached |= st.reached
            if st.model is not None or True:
                self.ok_states.append((st.inputs, st.model, st.pc, st.obs))
                if len(self.ok_states) > 200: self.ok_states.pop(100)
            return
        if status in ('unwind',):
            self.stat['unwind'] += 1
            self.undec.append(dict(kind='unwind', msg=info + ' ' + self.where(st), hang=not info.startswith('time'), inputs=list(st.inputs), pc=list(st.pc), model=st.model))
            return
        # abnormal end of a feasible path: a failure of the property
        self.failure(st, status + ': ' + info + ' at ' + self.where(st)[:160], [])

    def failure(self, st, msg, extra, model=None, margin=None):
        self.stat['failed'] += 1
        if model is None:
            r, m = smt.check(st.pc + extra, self.o.prove_ms)
            if r == 'unknown' and self.o.heavy_s:
                r, _, _ = smt.portfolio(st.pc + extra, self.o.heavy_s, self.o.logic, self.o.kinds)
                if r == 'sat': r = 'unknown'
            if r == 'unsat':
                self.stat['failed'] -= 1
                return
            if r == 'unknown':
                self.stat['failed'] -= 1
                self.stat['undecided'] += 1
                self.undec.append(dict(kind='assert', msg=msg, inputs=list(st.inputs), pc=list(st.pc), neg=z3.BoolVal(True), margin=margin, obs=list(st.obs), where=''))
                return
            model = m
        self.cex.append(dict(msg=msg, inputs=list(st.inputs), model=model, pc=list(st.pc), neg=list(extra), margin=margin, obs=list(st.obs)))

    def push(self, st, fn, args, ret=None, inv=None):
        if len(st.frames) > 400: raise EndPath('unwind', 'recursion too deep')
        fr = Frame(fn)
        self.stat['funcs'].add(fn.name)
        for (ty, nm), v in zip(fn.params, args): fr.r[nm] = v
        for i, bv in enumerate(fn.byval):
            if bv is not None:
                layout(bv)
                a = self.new_obj(st, bv.size, 'byval', 'stack')
                self.memcpy(st, a, args[i], bv.size)
                fr.r[fn.params[i][1]] = a
        fr.ret = ret; fr.inv = inv
        fr.blk = fn.entry; fr.code = fn.blocks[fn.entry]; fr.ip = 0
        st.frames.append(fr)

    def exec(self, st):
        H = self.H
        maxi = self.o.max_insts
        while True:
            fr = st.frames[-1]
            if fr.ip >= len(fr.code): raise Unsupported('control falls off %s block %s after %s' % (fr.fn.name, fr.blk, fr.code[-1:]))
            I = fr.code[fr.ip]
            st.di = 0
            st.icount += 1
            if not st.icount & 1023:
                if st.icount > maxi: raise EndPath('unwind', 'instruction limit')
                if time.time() - self.t0 > self.o.time: raise EndPath('unwind', 'time limit')
            j = H[I.op](st, fr, I)
            if st.decs: st.decs = []
            if not j: fr.ip += 1

    # ------------------------------------------------------------ control
    def jump(self, st, fr, tgt):
        c = fr.cnt.get(tgt, 0) + 1
        if c > self.o.loop: raise EndPath('unwind', 'loop bound in ' + fr.fn.name)
        fr.cnt[tgt] = c
        code = fr.fn.blocks[tgt]
        prev = fr.blk
        i = 0
        n = len(code)
        if code[0].op == 'phi':
            vals = []
            while code[i].op == 'phi':
                p = code[i]
                vals.append((p.res, self.ev(fr, p.a[prev], p.ty)))
                i += 1
            for r, v in vals: fr.r[r] = v
        fr.blk = tgt; fr.code = code; fr.ip = i
        return True

    def x_br(self, st, fr, I): return self.jump(st, fr, I.b)

    def x_condbr(self, st, fr, I):
        c = self.ev(fr, I.a)
        return self.jump(st, fr, I.b if self.decide(st, c) else I.c)

    def x_switch(self, st, fr, I):
        v = self.ev(fr, I.a)
        if type(v) is int:
            for c, l in I.c:
                if c == v: return self.jump(st, fr, l)
            return self.jump(st, fr, I.b)
        if v is UNDEF: raise EndPath('undef', 'switch on undefined value')
        for c, l in I.c:
            if self.decide(st, self.icmp('eq', v, c, I.ty.n)): return self.jump(st, fr, l)
        return self.jump(st, fr, I.b)

    def x_ret(self, st, fr, I):
        v = None if I.a is None else self.ev(fr, I.a, I.ty)
        if fr.hook is not None:
            r = fr.hook(st, fr, v)
            if r == 'stop': return True
        st.frames.pop()
        if st.par is not None and not st.frames:
            return self.thread_end(st)
        if not st.frames:
            st.frames.append(fr)
            raise EndPath('ok')
        up = st.frames[-1]
        if fr.ret is not None: up.r[fr.ret] = v
        if fr.inv is not None:
            return self.jump(st, up, fr.inv)
        up.ip += 1
        return True

    def x_unreachable(self, st, fr, I): raise EndPath('unreachable', 'undefined behaviour: unreachable code')

    def x_resume(self, st, fr, I): raise EndPath('exception', 'resume')

    def x_landingpad(self, st, fr, I): raise Unsupported('landingpad')

    def x_nop(self, st, fr, I): pass

    def x_freeze(self, st, fr, I):
        fr.r[I.res] = self.ev(fr, I.a, I.ty)

    # ------------------------------------------------------------ integers
    def bv(self, v, n):
        if type(v) is int: return z3.BitVecVal(v, n)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        return v

    def boo(self, v):
        if type(v) is int: return z3.BoolVal(bool(v))
        return v

    def intbin(self, st, fr, I):
        a = self.ev(fr, I.a, I.ty); b = self.ev(fr, I.b, I.ty)
        if I.ty.k == 'vec':
            n = I.ty.el.n
            if a is UNDEF or b is UNDEF: fr.r[I.res] = UNDEF
            else: fr.r[I.res] = [self.ibin(st, I.op, x, y, n) for x, y in zip(a, b)]
        else:
            fr.r[I.res] = self.ibin(st, I.op, a, b, I.ty.n)

    def ibin(self, st, op, a, b, n):
        if type(a) is int and type(b) is int:
            M = mask(n)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < n else 0
            if op == 'lshr': return a >> b if b < n else 0
            if op == 'ashr': return (sgn(a, n) >> min(b, n - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: raise EndPath('memerr', 'integer division by zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                if op == 'sdiv':
                    if q == 1 << (n - 1): raise EndPath('memerr', 'signed division overflow')
                    return q & M
                return (x - q * y) & M
        if a is UNDEF or b is UNDEF:
            if op == 'and' and (a == 0 or b == 0) and not (z3.is_expr(a) or z3.is_expr(b)): return 0
            return UNDEF
        if isinstance(a, FPBits) or isinstance(b, FPBits): return self.fpbits_op(op, a, b, n)
        if isinstance(a, (tuple, PartBits)) or isinstance(b, (tuple, PartBits)): raise Unsupported('arith on byte chunk')
        if n == 1:
            A = self.boo(a); B = self.boo(b)
            if op == 'and':
                if type(a) is int: return b if a else 0
                if type(b) is int: return a if b else 0
                return z3.And(A, B)
            if op == 'or':
                if type(a) is int: return 1 if a else b
                if type(b) is int: return 1 if b else a
                return z3.Or(A, B)
            if op in ('xor', 'add', 'sub'):
                if type(b) is int: return z3.Not(A) if b else a
                if type(a) is int: return z3.Not(B) if a else b
                return z3.Xor(A, B)
            if op == 'mul': return z3.And(A, B)
            raise Unsupported('i1 ' + op)
        # identities
        if type(b) is int:
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if b == 1 and op in ('mul', 'udiv', 'sdiv'): return a
            if b == mask(n) and op == 'and': return a
        if type(a) is int:
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'): return 0
            if a == 1 and op == 'mul': return b
        A = self.bv(a, n); B = self.bv(b, n)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        else:
            if type(b) is not int and self.decide(st, B == 0): raise EndPath('memerr', 'integer division by zero')
            if b == 0: raise EndPath('memerr', 'integer division by zero')
            if op == 'udiv': r = z3.UDiv(A, B)
            elif op == 'urem': r = z3.URem(A, B)
            elif op == 'sdiv': r = A / B
            elif op == 'srem': r = z3.SRem(A, B)
        r = z3.simplify(r)
        if z3.is_bv_value(r): return r.as_long()
        return r

    def fpbits_op(self, op, a, b, n):
        if isinstance(b, FPBits): a, b = b, a
        if type(b) is int and isinstance(a, FPBits):
            top = 1 << (n - 1)
            if op == 'and' and b == top - 1: return FPBits(self.fabs(a.v), n)
            if op == 'xor' and b == top: return FPBits(self.fneg(a.v), n)
        if not self.real and isinstance(a, FPBits):
            return self.ibin(None, op, z3.fpToIEEEBV(a.v), b if not isinstance(b, FPBits) else z3.fpToIEEEBV(b.v), n)
        raise Unsupported('bit operation %s on a symbolic floating value' % op)

    def icmp(self, pr, a, b, n):
        if type(a) is int and type(b) is int:
            if pr == 'eq': return int(a == b)
            if pr == 'ne': return int(a != b)
            if pr[0] == 's': a = sgn(a, n); b = sgn(b, n)
            p = pr[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, FPBits) or isinstance(b, FPBits):
            x = a.v if isinstance(a, FPBits) else self.conv(a, ir.DOUBLE)
            y = b.v if isinstance(b, FPBits) else self.conv(b, ir.DOUBLE)
            if pr in ('eq', 'ne'):
                r = self.fcmp('oeq', x, y)
                if pr == 'eq': return r
                return (1 - r) if type(r) is int else z3.Not(r)
            if pr in ('slt', 'sgt') and type(b) is int and b in (0, mask(n)):
                # sign bit test (zero treated as +0 in the real domain)
                if pr == 'slt' and b == 0: return self.fcmp('olt', x, self.num(0.0))
                if pr == 'sgt' and b == mask(n): return self.fcmp('oge', x, self.num(0.0))
            raise Unsupported('icmp on float bits')
        if isinstance(a, (tuple, PartBits)) or isinstance(b, (tuple, PartBits)):
            if a is b: return int(pr in ('eq', 'ule', 'uge', 'sle', 'sge'))
            raise Unsupported('icmp on chunk')
        if n == 1:
            A = self.boo(a); B = self.boo(b)
            if pr == 'eq':
                if type(b) is int: return a if b else z3.Not(A)
                return A == B
            if pr == 'ne':
                if type(b) is int: return z3.Not(A) if b else a
                return z3.Xor(A, B)
            A = z3.If(A, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); B = z3.If(B, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        else:
            A = self.bv(a, n); B = self.bv(b, n)
        if pr == 'eq': r = A == B
        elif pr == 'ne': r = A != B
        elif pr == 'slt': r = A < B
        elif pr == 'sle': r = A <= B
        elif pr == 'sgt': r = A > B
        elif pr == 'sge': r = A >= B
        elif pr == 'ult': r = z3.ULT(A, B)
        elif pr == 'ule': r = z3.ULE(A, B)
        elif pr == 'ugt': r = z3.UGT(A, B)
        else: r = z3.UGE(A, B)
        r = z3.simplify(r)
        if z3.is_true(r): return 1
        if z3.is_false(r): return 0
        return r

    def x_icmp(self, st, fr, I):
        a = self.ev(fr, I.a, I.ty); b = self.ev(fr, I.b, I.ty)
        if I.ty.k == 'vec':
            n = I.ty.el.n if I.ty.el.k == 'int' else 64
            fr.r[I.res] = UNDEF if (a is UNDEF or b is UNDEF) else [self.icmp(I.x, x, y, n) for x, y in zip(a, b)]
        else:
            fr.r[I.res] = self.icmp(I.x, a, b, I.ty.n if I.ty.k == 'int' else 64)

    # ------------------------------------------------------------ floats
    def fneg(self, v):
        if v is UNDEF: return v
        if isinstance(v, (Fraction, float)): return -v
        return -v if self.real else z3.fpNeg(v)

    def fabs(self, v):
        if v is UNDEF: return v
        if isinstance(v, (Fraction, float)): return abs(v)
        if self.real and smt.is_sos(v): return v
        return z3.If(v >= 0, v, -v) if self.real else z3.fpAbs(v)

    def x_fneg(self, st, fr, I):
        a = self.ev(fr, I.a, I.ty)
        fr.r[I.res] = [self.fneg(x) for x in a] if isinstance(a, list) else self.fneg(a)

    def fbin(self, st, fr, I):
        a = self.ev(fr, I.a, I.ty); b = self.ev(fr, I.b, I.ty)
        if I.ty.k == 'vec':
            fr.r[I.res] = UNDEF if (a is UNDEF or b is UNDEF) else [self.fop(st, I.op, x, y, I.ty.el) for x, y in zip(a, b)]
        else:
            fr.r[I.res] = self.fop(st, I.op, a, b, I.ty)

    def fop(self, st, op, a, b, ty=ir.DOUBLE):
        if a is UNDEF or b is UNDEF: return UNDEF
        if not self.real: return self.fop_fp(st, op, a, b, ty)
        ta = type(a) is Fraction; tb = type(b) is Fraction
        if ta and tb:
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0: return NAN if a == 0 else (INF if a > 0 else -INF)
                return a / b
            if op == 'frem':
                if b == 0: return NAN
                q = abs(a) // abs(b)
                r = abs(a) - q * abs(b)
                return r if a >= 0 else -r
        if type(a) is float or type(b) is float:
            # special values
            return self.fspecial(st, op, a, b)
        if op == 'fadd':
            if ta and a == 0: return b
            if tb and b == 0: return a
            return self.zr(a) + self.zr(b)
        if op == 'fsub':
            if tb and b == 0: return a
            if ta and a == 0: return -b
            if a is b: return Q0
            return self.zr(a) - self.zr(b)
        if op == 'fmul':
            if ta:
                if a == 0: return Q0
                if a == 1: return b
                if a == -1: return -b
            if tb:
                if b == 0: return Q0
                if b == 1: return a
                if b == -1: return -a
            return self.zr(a) * self.zr(b)
        if op == 'fdiv':
            if tb:
                if b == 0:
                    return self.div0(st, a)
                return self.zr(a) * self.zr(1 / b)
            if not self.nonzero(st, b):
                return self.div0(st, a)
            if ta and a == 0: return Q0
            if not ta:
                r = self.exact_quotient(st, a, b)
                if r is not None: return r
            if z3.is_app_of(b, z3.Z3_OP_DIV) and z3.is_rational_value(b.arg(0)):  # a/(c/x), x was checked when c/x was formed
                return self.fop(st, 'fmul', self.fop(st, 'fdiv', a, smt.val_fraction(b.arg(0))), b.arg(1))
            return self.zr(a) / b
        if op == 'frem': return self.frem(st, a, b)
        raise Unsupported(op)

    def exact_quotient(self, st, a, b):
        """a/b for a monomial b (known nonzero) dividing every term of a"""
        key = ('quot', a.get_id(), b.get_id())
        r = st.memo.get(key)
        if r is None:
            smt._keep += [a, b]; r = (None,)
            cb = smt.canon(b, st.rules, 4)
            if cb is not None and len(cb[0]) == 1 and cb[1] == smt.ONE:
                ca = smt.canon(a, st.rules, 60)
                if ca is not None and ca[1] == smt.ONE and ca[0]:
                    n, d = smt.mcancel(ca[0], cb[0])
                    if len(d) == 1 and () in d:
                        c = d[()]
                        z = smt.poly_expr({m: x / c for m, x in n.items()})
                        r = (smt.val_fraction(z) if z3.is_rational_value(z) else z,)
            st.memo[key] = r
        return r[0]

    def nonzero(self, st, b):
        return not self.decide(st, b == 0)

    def div0(self, st, a):
        if type(a) is Fraction: return NAN if a == 0 else (INF if a > 0 else -INF)
        if self.decide(st, a == 0): return NAN
        return INF if self.decide(st, a > 0) else -INF

    def fspecial(self, st, op, a, b):
        if a != a if type(a) is float else False: return NAN
        if b != b if type(b) is float else False: return NAN
        def tofl(x):
            if type(x) is float: return x
            return None
        fa, fb = tofl(a), tofl(b)
        if fa is not None and fb is not None:
            if op == 'fadd': return fa + fb
            if op == 'fsub': return fa - fb
            if op == 'fmul': return fa * fb
            if op == 'fdiv': return NAN
            return NAN
        if op == 'fadd': return fa if fa is not None else fb
        if op == 'fsub': return fa if fa is not None else -fb
        if op == 'fdiv' and fb is not None: return Q0
        # inf * x  or inf / x
        inf, x = (fa, b) if fa is not None else (fb, a)
        if type(x) is Fraction:
            if x == 0: return NAN if op == 'fmul' else inf
            return inf if x > 0 else -inf
        if self.decide(st, x == 0): return NAN if op == 'fmul' else inf
        return inf if self.decide(st, x > 0) else -inf

    def fop_fp(self, st, op, a, b, ty):
        if ty.k == 'float':
            RM = z3.RNE()
            A = a if z3.is_expr(a) else z3.FPVal(a, z3.Float32()); B = b if z3.is_expr(b) else z3.FPVal(b, z3.Float32())
        else:
            if type(a) is float and type(b) is float:
                try:
                    if op == 'fadd': return a + b
                    if op == 'fsub': return a - b
                    if op == 'fmul': return a * b
                    if op == 'fdiv':
                        if b == 0:
                            if a == 0 or a != a: return NAN
                            return math.copysign(INF, a) * math.copysign(1, b)
                        return a / b
                    if op == 'frem': return math.fmod(a, b)
                except (OverflowError, ValueError):
                    return NAN
            RM = z3.RNE()
            A = self.zr(a); B = self.zr(b)
        if op == 'fadd': return z3.fpAdd(RM, A, B)
        if op == 'fsub': return z3.fpSub(RM, A, B)
        if op == 'fmul': return z3.fpMul(RM, A, B)
        if op == 'fdiv': return z3.fpDiv(RM, A, B)
        raise Unsupported('frem fp')

    def fcmp(self, pr, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pr == 'true': return 1
        if pr == 'false': return 0
        if not self.real:
            if type(a) is float and type(b) is float: return self.fcmp_c(pr, a, b)
            if z3.is_expr(a): 
                s = a.sort()
                A = a; B = b if z3.is_expr(b) else z3.FPVal(b, s)
            else:
                B = b; A = z3.FPVal(a, b.sort())
            un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
            if pr == 'uno': return z3.simplify(un)
            if pr == 'ord': return z3.simplify(z3.Not(un))
            p = pr[1:]
            base = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[p](A, B)
            if pr[0] == 'o' and p == 'ne': base = z3.And(base, z3.Not(un))
            elif pr[0] == 'u' and p != 'ne': base = z3.Or(base, un)
            return base
        fa = type(a) is float; fb = type(b) is float
        if fa or fb:
            if (fa and a != a) or (fb and b != b): return 1 if pr[0] == 'u' else 0
            if pr == 'ord': return 1
            if pr == 'uno': return 0
            x = a if fa else 0.0
            y = b if fb else 0.0
            return self.fcmp_c(pr, x, y)
        if pr == 'ord': return 1
        if pr == 'uno': return 0
        p = pr[1:]
        if type(a) is Fraction and type(b) is Fraction:
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
        if a is b: return int(p in ('eq', 'le', 'ge'))
        A = self.zr(a); B = self.zr(b)
        if p == 'eq': return A == B
        if p == 'ne': return A != B
        if p == 'lt': return A < B
        if p == 'le': return A <= B
        if p == 'gt': return A > B
        return A >= B

    def fcmp_c(self, pr, a, b):
        un = a != a or b != b
        if pr == 'uno': return int(un)
        if pr == 'ord': return int(not un)
        p = pr[1:]
        if un: return int(pr[0] == 'u')
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])

    def x_fcmp(self, st, fr, I):
        a = self.ev(fr, I.a, I.ty); b = self.ev(fr, I.b, I.ty)
        if I.ty.k == 'vec': fr.r[I.res] = UNDEF if (a is UNDEF or b is UNDEF) else [self.fcmp(I.x, x, y) for x, y in zip(a, b)]
        else:
            if self.real and st.rules and z3.is_expr(a) | z3.is_expr(b) and a is not UNDEF and b is not UNDEF and type(a) is not float and type(b) is not float:
                e = self.zr(a) - self.zr(b)
                se = z3.simplify(e); smt._keep.append(se)
                key = ('fc', se.get_id())
                r = st.memo.get(key)
                if r is None:
                    cf = smt.canon(e, st.rules, 150)
                    r = (None,)
                    if cf is not None and cf[1] == smt.ONE and len(cf[0]) < 60:
                        smt._keep.append(e)
                        r = (smt.poly_expr(smt.as_square(cf[0], st.rules)),)
                    st.memo[key] = r
                if r[0] is not None: a = r[0]; b = Q0
                if z3.is_rational_value(a) if z3.is_expr(a) else False: a = smt.val_fraction(a)
            fr.r[I.res] = self.fcmp(I.x, a, b)

    def sqrt(self, st, x):
        if x is UNDEF: return x
        if not self.real:
            if type(x) is float: return math.sqrt(x) if x >= 0 else NAN
            return z3.fpSqrt(z3.RNE(), x)
        if type(x) is float: return x if x == INF else NAN
        ck = None
        if type(x) is Fraction:
            if x < 0: return NAN
            n = math.isqrt(x.numerator); d = math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator: return Fraction(n, d)
            zx = self.zr(x)
        else:
            zx = z3.simplify(x, som=True)
            if z3.is_rational_value(zx): return self.sqrt(st, smt.val_fraction(zx))
            smt._keep.append(zx)
            if st.rules:
                cf = smt.canon(zx, st.rules)
                if cf is not None:
                    n, d = cf
                    c = smt.canon_const(n, d)
                    if c is not None: return self.sqrt(st, c)
                    if len(n) == 1 and d == smt.ONE:
                        (m, co), = n.items()
                        rc = self.sqrt(st, co) if co > 0 else None
                        if type(rc) is Fraction and all(e % 2 == 0 for _, e in m):
                            t = self.zr(rc)
                            for v, e in m:
                                for _ in range(e // 2): t = t * (smt.ATOM[v] if v in smt.ATOM else z3.Real(v))
                            return t if self.decide(st, t >= 0) else -t
                    ck = ('sqrtc', tuple(sorted(n.items())), tuple(sorted(d.items())))
                    r = st.memo.get(ck)
                    if r is not None: return r[0]
        if ck is not None and d == smt.ONE and len(n) < 60: zx = smt.poly_expr(n)
        key = ('sqrt', zx.get_id())
        r = st.memo.get(key)
        if r is not None: return r[0]
        if type(x) is not Fraction and not (smt.is_sos(x) or smt.is_sos(z3.simplify(x))) and self.decide(st, zx < 0): return NAN
        nm = 'sqrt!%d' % zx.get_id()
        smt._keep.append(zx)
        v = z3.Real(nm)
        st.memo[key] = (v, zx)
        if ck is not None: st.memo[ck] = (v, zx)
        if type(x) is not Fraction and not (ck is not None and d == smt.ONE and len(n) < 60): zx = z3.simplify(x)
        # a perfect-square radicand p^2 : not simplified; r>=0, r*r==x
        self.addpc(st, v >= 0); self.addpc(st, v * v == zx)
        if st.model is not None:
            self.extend_model_sqrt(st, v, zx)
        st.rules[nm] = zx
        return v

    def extend_model_sqrt(self, st, v, zx):
        try:
            e = smt.model_eval(zx, st.model)
        except z3.Z3Exception:
            st.model = None; return
        if smt.fvars(e): # unassigned inputs
            st.model = None; return
        r, m = smt.check([v >= 0, v * v == e], 500)
        if r == 'sat':
            d = dict(st.model); d.update(m); st.model = d
        else:
            st.model = None

    def x_select(self, st, fr, I):
        c = self.ev(fr, I.c, I.x)
        a = self.ev(fr, I.a, I.ty); b = self.ev(fr, I.b, I.ty)
        if isinstance(c, list):
            fr.r[I.res] = [self.sel(st, k, x, y, I.ty.el) for k, x, y in zip(c, a, b)]
            return
        fr.r[I.res] = self.sel(st, c, a, b, I.ty)

    def sel(self, st, c, a, b, ty):
        if type(c) is int: return a if c else b
        if c is UNDEF: return a if a is b else UNDEF
        if a is b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        k = ty.k
        c = z3.simplify(c)
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if type(a) is type(b) and type(a) in (int, Fraction) and a == b: return a
        if k in ('double', 'float'):
            if type(a) is float and self.real or type(b) is float and self.real or self.o.select == 'fork':
                return a if self.decide(st, c) else b
            if self.real:
                kn = self.known(st, c)
                if kn is not None: return a if kn else b
            if not self.real and k == 'float':
                f = lambda v: v if z3.is_expr(v) else z3.FPVal(v, z3.Float32())
                return z3.If(c, f(a), f(b))
            return z3.If(c, self.zr(a), self.zr(b))
        if k == 'int' and not isinstance(a, (FPBits, tuple, PartBits)) and not isinstance(b, (FPBits, tuple, PartBits)):
            if ty.n == 1:
                return z3.simplify(z3.If(c, self.boo(a), self.boo(b)))
            if self.o.select == 'fork' : return a if self.decide(st, c) else b
            return z3.simplify(z3.If(c, self.bv(a, ty.n), self.bv(b, ty.n)))
        return a if self.decide(st, c) else b

    # ------------------------------------------------------------ casts
    def cast(self, st, fr, I):
        v = self.ev(fr, I.a, I.x)
        if I.x.k == 'vec' and I.op != 'bitcast':
            fr.r[I.res] = UNDEF if v is UNDEF else [self.cast1(st, I.op, x, I.x.el, I.ty.el) for x in v]
            return
        if I.op == 'bitcast' and (I.x.k == 'vec' or I.ty.k == 'vec'):
            fr.r[I.res] = self.bitcast_vec(st, v, I.x, I.ty)
            return
        fr.r[I.res] = self.cast1(st, I.op, v, I.x, I.ty)

    def bitcast_vec(self, st, v, sty, dty):
        if v is UNDEF: return v
        layout(sty); layout(dty)
        if sty.k == 'vec' and dty.k == 'vec' and sty.n == dty.n:
            return [self.conv(x, dty.el) if x is not UNDEF else x for x in v]
        if sty.k == 'vec' and sty.el.n == 1 and dty.k == 'int':
            r = 0
            for i, b in enumerate(v):
                if type(b) is int: r = r | (b << i) if type(r) is int else r | z3.BitVecVal(b << i, dty.n)
                else:
                    e = z3.If(b, z3.BitVecVal(1 << i, dty.n), z3.BitVecVal(0, dty.n))
                    r = e | (z3.BitVecVal(r, dty.n) if type(r) is int else r)
            return r
        o = Obj(0, 64, 'tmp', 'tmp', None)
        self.ostore(st, o, 0, v, sty)
        return self.oload(st, o, 0, dty)

    def cast1(self, st, op, v, sty, dty):
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            if type(v) is int: return v & mask(dty.n)
            if isinstance(v, FPBits):
                if not self.real: v = z3.fpToIEEEBV(v.v)
                else: raise Unsupported('trunc float bits')
            if isinstance(v, PartBits): return PartBits(v.v, v.lo, dty.n // 8, v.tot)
            if isinstance(v, tuple): return self.from_bytes(list(v[1][:dty.n // 8]), dty)
            if dty.n == 1:
                return z3.simplify(z3.Extract(0, 0, v) == 1)
            return z3.simplify(z3.Extract(dty.n - 1, 0, v))
        if op == 'zext':
            if type(v) is int: return v
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, dty.n), z3.BitVecVal(0, dty.n))
            if isinstance(v, (FPBits, PartBits, tuple)): raise Unsupported('zext of bits')
            return z3.simplify(z3.ZeroExt(dty.n - sty.n, v))
        if op == 'sext':
            if type(v) is int: return sgn(v, sty.n) & mask(dty.n)
            if z3.is_bool(v): return z3.If(v, z3.BitVecVal(mask(dty.n), dty.n), z3.BitVecVal(0, dty.n))
            if isinstance(v, (FPBits, PartBits, tuple)): raise Unsupported('sext of bits')
            return z3.simplify(z3.SignExt(dty.n - sty.n, v))
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            return v
        if op == 'bitcast': return self.conv(v, dty)
        if op in ('sitofp', 'uitofp'):
            sg = op == 'sitofp'
            if type(v) is int:
                x = sgn(v, sty.n) if sg else v
                if not self.real and dty.k == 'float': return z3.FPVal(x, z3.Float32())
                return Fraction(x) if self.real else float(x)
            if z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if self.real else v
                if not self.real: return z3.If(v, z3.FPVal(1.0, z3.Float64()), z3.FPVal(0.0, z3.Float64()))
                return z3.If(z3.simplify(v == 1), z3.RealVal(-1 if sg else 1), z3.RealVal(0))
            if self.real:
                key = ('i2r', v.get_id())
                if key in st.memo: return st.memo[key][0]
                # integers that came from fptosi are linked back
                k2 = ('ofreal', v.get_id())
                if k2 in st.memo: return st.memo[k2][0]
                r = z3.simplify(z3.ToReal(z3.BV2Int(v, is_signed=sg)))
                self.i2r[r.get_id()] = (r, v, sg)
                return r
            so = z3.Float64() if dty.k == 'double' else z3.Float32()
            return z3.fpSignedToFP(z3.RNE(), v, so) if sg else z3.fpUnsignedToFP(z3.RNE(), v, so)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, (Fraction, float)):
                if v != v or v in (INF, -INF): raise EndPath('undef', 'conversion of nan/inf to integer')
                x = int(v)
                if op == 'fptosi' and not -(1 << (dty.n - 1)) <= x < (1 << (dty.n - 1)): raise EndPath('undef', 'float to int overflow')
                return x & mask(dty.n)
            if self.real: return self.real_to_int(st, v, dty, op == 'fptosi')
            inr = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpLT(v, z3.FPVal(2.0 ** (dty.n - 1), v.sort())), z3.fpGT(v, z3.FPVal(-2.0 ** (dty.n - 1) - (1 if dty.n <= 32 else 0), v.sort())))
            if not self.decide(st, inr): raise EndPath('undef', 'float to int overflow')
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(dty.n)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(dty.n))
        if op in ('fpext', 'fptrunc'):
            if self.real: return v
            if dty.k == 'double':
                return z3.fpFPToFP(z3.RNE(), v, z3.Float64()) if z3.is_expr(v) else v
            if dty.k == 'float':
                return z3.fpFPToFP(z3.RNE(), self.zr(v), z3.Float32())
            return v
        raise Unsupported('cast ' + op)

    def int_part(self, st, v):
        """v = I + r with an integer combination I of converted integers and a remainder provably in [0,1): (I, terms, const) or None"""
        if not self.i2r: return None
        cf = smt.canon(v, st.rules)
        if cf is None or cf[1] != smt.ONE: return None
        terms = []; rest = {}
        for m, c in cf[0].items():
            a = smt.ATOM.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
            h = self.i2r.get(a.get_id()) if a is not None else None
            if h is not None and c.denominator == 1: terms.append((int(c), h[1], h[2], h[0]))
            else: rest[m] = c
        if not terms: return None
        k = 0
        if () in rest:
            k = rest[()].numerator // rest[()].denominator
            rest[()] -= k
        r = smt.poly_expr({m: c for m, c in rest.items() if c})
        if not (z3.is_rational_value(r) and 0 <= smt.val_fraction(r) < 1):
            if self.feas(st, z3.Or(r < 0, r >= 1))[0] != 'unsat': return None
        I = z3.RealVal(k)
        for c, _, _, x in terms: I = I + z3.RealVal(c) * x
        return z3.simplify(I), [t[:3] for t in terms], k

    def real_to_int(self, st, v, dty, signed):
        """truncation of a symbolic real: forked over the feasible integer values (bounded)"""
        v = z3.simplify(v)
        if z3.is_rational_value(v): return int(smt.val_fraction(v)) & mask(dty.n)
        ip = self.int_part(st, v)
        if ip is not None and self.feas(st, v < 0)[0] == 'unsat':
            t = z3.BitVecVal(ip[2], dty.n)
            for c, bv, sg in ip[1]:
                w = bv.size()
                x = bv if w == dty.n else z3.Extract(dty.n - 1, 0, bv) if w > dty.n else z3.SignExt(dty.n - w, bv) if sg else z3.ZeroExt(dty.n - w, bv)
                t = t + z3.BitVecVal(c, dty.n) * x
            lim = z3.Q(1 << (dty.n - 1 if signed else dty.n), 1)
            if self.feas(st, v >= lim)[0] == 'unsat': return z3.simplify(t)
        for _ in range(200):
            if st.di < len(st.decs):
                val, taken = st.decs[st.di]; st.di += 1
                if taken: return val & mask(dty.n)
                continue
            val = None
            if st.model is not None:
                e = smt.model_eval(v, st.model)
                f = smt.val_fraction(e)
                if f is not None: val = int(f)
            if val is None:
                t = z3.Real('cz!%d' % self.kz); self.kz += 1
                r, m = smt.check(smt.slice_pc(st.pc, v) + [t == v], 5000)
                if r == 'unsat': raise EndPath('ignored', 'infeasible')
                if r != 'sat': raise Unsupported('cannot concretize real->int')
                val = int(smt.val_fraction(m[t.decl().name()][1]))
            if val > 0: inn = z3.And(v >= val, v < val + 1)
            elif val < 0: inn = z3.And(v <= val, v > val - 1)
            else: inn = z3.And(v > -1, v < 1)
            if not -(1 << (dty.n - 1)) <= val < (1 << (dty.n - 1)): raise EndPath('undef', 'float to int overflow')
            ne = z3.simplify(z3.Not(inn))
            r, m = self.feas(st, ne, 2000)
            if r != 'unsat':
                s2 = st.clone(); s2.decs.append((val, False)); self.addpc(s2, ne); s2.model = m
                self.work.append(s2); self.stat['forks'] += 1
            self.addpc(st, z3.simplify(inn))
            if st.model is not None and self.meval(st, inn) is not True: st.model = None
            st.decs.append((val, True)); st.di += 1
            return val & mask(dty.n)
        raise EndPath('unwind', 'too many integer values of a real')

    # ------------------------------------------------------------ memory instrs
    def x_alloca(self, st, fr, I):
        n = self.concretize(st, self.ev(fr, I.a), 'alloca size')
        fr.r[I.res] = self.new_obj(st, I.ty.size * n, fr.fn.name + I.res, 'stack')

    def x_load(self, st, fr, I):
        fr.r[I.res] = self.load(st, self.ev(fr, I.a), I.ty, I.x is not None)

    def x_store(self, st, fr, I):
        self.store(st, self.ev(fr, I.b), self.ev(fr, I.a, I.ty), I.ty, I.x is not None)

    def x_gep(self, st, fr, I):
        base = self.ev(fr, I.a)
        off = I.b
        if I.c or type(base) is not int:
            ix = [(sc, n, self.ev(fr, v)) for sc, n, v in I.c]
            nsym = sum(1 for sc, n, x in ix if type(x) is not int)
            keep = None
            for sc, n, x in ix:
                if type(x) is int: off += sgn(x, n) * sc
                elif x is UNDEF:
                    fr.r[I.res] = UNDEF; return
                elif nsym == 1 and type(base) is int and z3.is_bv(x) and base >= 1 << 32 and self.table(st, base):
                    keep = (sc, n, x)
                else:
                    x = self.concretize(st, x, 'index')
                    off += sgn(x, n) * sc
            if keep is not None:
                sc, n, x = keep
                x64 = x if n == 64 else z3.SignExt(64 - n, x)
                e = z3.simplify(z3.BitVecVal((base + off) & mask(64), 64) + x64 * z3.BitVecVal(sc, 64))
                if not z3.is_bv_value(e):
                    smt._keep.append(e); smt._keep.append(x64)
                    self.symptr[e.get_id()] = ((base + off) & mask(64), z3.simplify(x64), sc)
                    fr.r[I.res] = e; return
                fr.r[I.res] = e.as_long(); return
            if type(base) is not int:
                if base is UNDEF:
                    fr.r[I.res] = UNDEF; return
                if nsym == 0 and base.get_id() in self.symptr:
                    fr.r[I.res] = self.symptr_off(base, off); return
                base = self.concretize(st, base, 'pointer')
        fr.r[I.res] = (base + off) & mask(64)

    def x_atomicrmw(self, st, fr, I):
        a = self.ev(fr, I.a); v = self.ev(fr, I.b, I.ty)
        old = self.load(st, a, I.ty, True)
        op = I.x
        n = I.ty.n
        if op == 'xchg': new = v
        elif op in ('add', 'sub', 'and', 'or', 'xor'): new = self.ibin(st, op, old, v, n)
        elif op == 'fadd': new = self.fop(st, 'fadd', old, v)
        elif op == 'fsub': new = self.fop(st, 'fsub', old, v)
        elif op in ('max', 'min', 'umax', 'umin'):
            pr = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
            new = self.sel(st, self.icmp(pr, old, v, n), old, v, I.ty)
        else: raise Unsupported('atomicrmw ' + op)
        self.store(st, a, new, I.ty, True)
        fr.r[I.res] = old

    def x_cmpxchg(self, st, fr, I):
        a = self.ev(fr, I.a)
        old = self.load(st, a, I.ty, True)
        cmp = self.ev(fr, I.b, I.ty); new = self.ev(fr, I.c, I.ty)
        if old is cmp: ok = 1
        else: ok = 1 if self.decide(st, self.icmp('eq', old, cmp, I.ty.n if I.ty.k == 'int' else 64)) else 0
        if ok: self.store(st, a, new, I.ty, True)
        fr.r[I.res] = [old, ok]

    # ------------------------------------------------------------ aggregates
    def agg(self, v, ty):
        if v is UNDEF:
            if ty.k == 'struct': return [self.agg(UNDEF, e) for e in ty.els]
            if ty.k in ('arr', 'vec'): return [self.agg(UNDEF, ty.el) for _ in range(ty.n)]
        return v

    def x_extractvalue(self, st, fr, I):
        v = self.agg(self.ev(fr, I.a, I.ty), I.ty)
        for i in I.b: v = v[i]
        fr.r[I.res] = v

    def x_insertvalue(self, st, fr, I):
        v = self.agg(self.ev(fr, I.a, I.ty), I.ty)
        x = self.ev(fr, I.b)

        def ins(v, idx):
            v = list(v)
            v[idx[0]] = x if len(idx) == 1 else ins(v[idx[0]], idx[1:])
            return v
        ty = I.ty
        for i in I.c: ty = ty.els[i] if ty.k == 'struct' else ty.el
        x = self.ev(fr, I.b, ty)
        fr.r[I.res] = ins(v, I.c)

    def x_extractelement(self, st, fr, I):
        v = self.agg(self.ev(fr, I.a, I.ty), I.ty)
        i = self.concretize(st, self.ev(fr, I.b), 'element')
        fr.r[I.res] = v[i]

    def x_insertelement(self, st, fr, I):
        v = list(self.agg(self.ev(fr, I.a, I.ty), I.ty))
        i = self.concretize(st, self.ev(fr, I.c), 'element')
        v[i] = self.ev(fr, I.b, I.ty.el)
        fr.r[I.res] = v

    def x_shufflevector(self, st, fr, I):
        a = self.agg(self.ev(fr, I.a, I.ty), I.ty); b = self.agg(self.ev(fr, I.b, I.ty), I.ty)
        mk = self.cval(I.c, I.x)
        if mk is UNDEF: mk = [UNDEF] * I.x.n
        ab = a + b
        fr.r[I.res] = [UNDEF if k is UNDEF else ab[k] for k in mk]

    # ------------------------------------------------------------ calls
    def x_call(self, st, fr, I): return self.call(st, fr, I, None)

    def x_invoke(self, st, fr, I): return self.call(st, fr, I, I.c[0])

    def call(self, st, fr, I, inv):
        cal = I.a
        if type(cal) is str: nm = cal
        elif type(cal) is Reg:
            a = fr.r[cal]
            if type(a) is not int: a = self.concretize(st, a, 'function pointer')
            nm = self.fnaddr.get(a)
            if nm is None: raise EndPath('memerr', 'call through bad pointer %x' % a)
        else:
            if cal.op == 'asm':
                if I.res: fr.r[I.res] = UNDEF
                return self.after(st, fr, inv)
            nm = self.fnaddr.get(self.cval(cal, ir.PTR))
        mdl = self.mcache.get(nm)
        if mdl is None:
            mdl = self.find_model(nm)
            self.mcache[nm] = mdl
        if mdl[0] == 'fn':
            args = [self.ev(fr, v, ty) for ty, v, _ in I.b]
            self.push(st, mdl[1], args, I.res, inv)
            return True
        if mdl[0] == 'none':
            raise Unsupported('external function ' + nm)
        args = [self.ev(fr, v, ty) for ty, v, _ in I.b]
        r = mdl[1](st, fr, I, args)
        if r is CONT: return True
        if I.res is not None: fr.r[I.res] = r
        return self.after(st, fr, inv)

    def after(self, st, fr, inv):
        if inv is not None:
            # decisions already consumed
            return self.jump(st, fr, inv)
        return False

    def find_model(self, nm):
        while nm in self.m.aliases: nm = self.m.aliases[nm]
        n = nm[1:].strip('"')
        f = self.models.get(n)
        if f is not None: return ('model', f)
        for pat, fn in self.patterns:
            if pat.match(n): return ('model', getattr(self, fn, None) or self.models[fn])
        f = self.m.get(nm)
        if f is not None: return ('fn', f)
        return ('none', None)

    # ------------------------------------------------------------ assertions
    def check_assert(self, st, cond, msg, margin=None, eq=None):
        """cond: int or z3 Bool that must hold.  margin: stronger negation for robust counterexamples. eq=(a,b) when it is a==b"""
        self.stat['asserts'] += 1
        st.nassert += 1
        if cond is UNDEF:
            self.failure(st, msg + ' (undefined value)', []); return
        if type(cond) is int or type(cond) is bool:
            if cond: self.stat['triv'] += 1; self.stat['proved'] += 1
            else: self.failure(st, msg, [])
            if not cond: raise EndPath('ignored', 'failed')
            return
        c = z3.simplify(cond)
        if z3.is_true(c) or c.get_id() in st.pcids:
            self.stat['triv'] += 1; self.stat['proved'] += 1; return
        if eq is not None and self.real:
            d = self.zr(eq[0]) - self.zr(eq[1])
            d1 = z3.simplify(d, som=True)
            if z3.is_rational_value(d1) and d1.numerator_as_long() == 0:
                self.stat['proved'] += 1; return
            if smt.poly_eq_zero(z3.simplify(d), st.rules):
                self.stat['proved'] += 1; self.stat['algebraic'] = self.stat.get('algebraic', 0) + 1
                return
        neg = z3.simplify(z3.Not(cond))
        r, m = self.prove(st, neg)
        if r == 'unsat':
            self.stat['proved'] += 1
            self.addpc(st, c)
            return
        if r == 'sat':
            self.failure(st, msg, [neg], m, margin)
            # continue under the assumption that it holds, if possible
            rr, mm = self.feas(st, c)
            if rr == 'unsat': raise EndPath('ignored', 'failed')
            self.addpc(st, c); st.model = mm
            return
        self.stat['undecided'] += 1
        self.undec.append(dict(kind='assert', msg=msg, inputs=list(st.inputs), pc=list(st.pc), neg=neg, margin=margin, obs=list(st.obs), where=''))
        self.addpc(st, c)

    def prove(self, st, neg):
        cons = smt.slice_pc(st.pc, neg) + [neg]
        r, m = smt.check(cons, self.o.prove_ms)
        if r == 'unknown' and self.o.heavy_s > 0:
            v, who, out = smt.portfolio(cons, self.o.heavy_s, self.o.logic, self.o.kinds)
            if v == 'unsat': return 'unsat', None
            if v == 'sat':
                r2, m2 = smt.check(cons, 10000, 'nlsat' if self.real else 'auto')
                if r2 == 'sat': r, m = r2, m2
                else: return 'sat', None
        if r == 'sat':
            if len(cons) < len(st.pc) + 1:
                if st.model is not None:
                    d = dict(st.model); d.update(m); m = d
                else:
                    r2, m2 = smt.check(st.pc + [neg], self.o.prove_ms)
                    if r2 == 'sat': m = m2
                    elif r2 == 'unsat': return 'unsat', None
            return 'sat', m
        return r, None

    # ------------------------------------------------------------ parallel regions
    def thread_end(self, st):
        p = st.par
        p.threads[p.cur].status = 'done'
        return self.schedule(st)

    def schedule(self, st):
        """switch to the next runnable thread; release barriers; leave the region when all done"""
        p = st.par
        for t in p.threads:
            if t.status == 'run':
                p.cur = t.tid
                st.frames = t.frames
                return True
        waiting = [t for t in p.threads if t.status == 'barrier']
        if waiting:
            # all others are done or waiting
            p.phase += 1
            for t in p.threads: t.acc = {}
            for t in waiting: t.status = 'run'
            p.cur = waiting[0].tid
            st.frames = p.threads[p.cur].frames
            return True
        # region finished
        st.frames = p.saved
        st.par = None
        fr = st.frames[-1]
        fr.ip += 1
        return True


class _C: pass


CONT = _C()
