"""Parser for the textual LLVM IR (opaque pointers, clang 18) that the symbolic executor runs."""
import re
from fractions import Fraction
import struct as _struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<reg>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[\[\]{}()<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if k is None:
            if s[i] == ';':
                break
            raise SyntaxError("tok %r" % s[i:i + 60])
        i = k.end()
        if k.lastgroup != 'ws':
            out.append(k.group())
    return out


# ---- types ---------------------------------------------------------------
class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'packed', 'size', 'align', 'offs', 'name')

    def __init__(self, k, n=0, el=None, els=None, packed=False, name=None):
        self.k = k; self.n = n; self.el = el; self.els = els; self.packed = packed
        self.size = None; self.align = None; self.offs = None; self.name = name

    def __repr__(self):
        return self.k + str(self.n or '') + (repr(self.el) if self.el else '') + (repr(self.els) if self.els else '')


VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float'); LABEL = Ty('label'); META = Ty('metadata'); TOKEN = Ty('token')
X86FP = Ty('x86_fp80'); HALF = Ty('half'); FP128 = Ty('fp128')
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t


I1 = INT(1); I8 = INT(8); I32 = INT(32); I64 = INT(64)
SIMPLE = {'void': VOID, 'ptr': PTR, 'double': DOUBLE, 'float': FLOAT, 'label': LABEL, 'metadata': META, 'token': TOKEN,
          'x86_fp80': X86FP, 'half': HALF, 'fp128': FP128}


def layout(t):
    if t.size is not None:
        return
    k = t.k
    if k == 'int':
        b = (t.n + 7) // 8
        p = 1
        while p < b: p *= 2
        t.size = p; t.align = min(p, 16)
    elif k in ('ptr', 'double'):
        t.size = 8; t.align = 8
    elif k == 'float':
        t.size = 4; t.align = 4
    elif k == 'half':
        t.size = 2; t.align = 2
    elif k in ('x86_fp80', 'fp128'):
        t.size = 16; t.align = 16
    elif k == 'arr':
        layout(t.el); t.size = t.n * t.el.size; t.align = t.el.align
    elif k == 'vec':
        layout(t.el)
        s = t.n * t.el.size if t.el.n != 1 else (t.n + 7) // 8
        p = 1
        while p < s: p *= 2
        t.size = p; t.align = min(p, 64)
    elif k == 'struct':
        o = 0; al = 1; offs = []
        for e in t.els:
            layout(e)
            a = 1 if t.packed else e.align
            o = (o + a - 1) // a * a
            offs.append(o); o += e.size
            al = max(al, a)
        o = (o + al - 1) // al * al
        t.size = o; t.align = al; t.offs = offs
    elif k in ('void', 'opaque', 'func'):
        t.size = 0; t.align = 1
    else:
        raise SyntaxError('layout ' + repr(t))


class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Zero:
    pass


class CExpr:
    """constant needing module resolution"""
    __slots__ = ('op', 'a')

    def __init__(self, op, *a): self.op = op; self.a = a

    def __repr__(self): return 'CExpr(%s,%r)' % (self.op, self.a)


def dbl_from_hex(tok):
    return _struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext', 'noalias', 'returned',
               'inreg', 'immarg', 'nofree', 'swiftself', 'noescape', 'nest', 'dead_on_unwind', 'writable', 'allocptr', 'nofpclass', 'allocalign', 'range'}
FAST = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
CALLFLAGS = {'tail', 'musttail', 'notail'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'cc'}
PARENATTR = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'inalloca', 'elementtype', 'preallocated', 'nofpclass', 'range', 'initializes'}


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'b', 'c', 'x', 'fn', 'line')

    def __init__(self, op, res=None, ty=None, a=None, b=None, c=None, x=None):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.b = b; self.c = c; self.x = x; self.fn = None

    def __repr__(self):
        return 'Inst(%s res=%s ty=%r a=%r b=%r c=%r x=%r)' % (self.op, self.res, self.ty, self.a, self.b, self.c, self.x)


class Fn:
    __slots__ = ('name', 'params', 'ret', 'lines', 'blocks', 'entry', 'vararg', 'byval')


class Reg(str):
    """register operand"""
    __slots__ = ()


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, m): self.t = toks; self.i = 0; self.m = m

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]; self.i += 1
        return v

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if self.t[self.i] != x:
            raise SyntaxError('expected %r got %r in %r' % (x, self.t[self.i], ' '.join(self.t)))
        self.i += 1

    def type(self):
        t = self.next()
        if t in SIMPLE:
            r = SIMPLE[t]
        elif t[0] == 'i' and t[1:].isdigit():
            r = INT(int(t[1:]))
        elif t[0] == '%':
            r = self.m.named_type(t)
        elif t == '[':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp(']')
            r = Ty('arr', n, e)
        elif t == '{':
            r = Ty('struct', els=self._tylist('}'))
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = Ty('struct', els=self._tylist('}'), packed=True)
                self.exp('>')
            else:
                n = int(self.next()); self.exp('x'); e = self.type(); self.exp('>')
                r = Ty('vec', n, e)
        elif t == 'opaque':
            r = Ty('opaque')
        else:
            raise SyntaxError('type %r in %r' % (t, ' '.join(self.t)))
        if r is PTR and self.peek() == 'addrspace':
            self.next(); self.exp('('); self.next(); self.exp(')')
        # function type
        if self.peek() == '(' and (r is not None):
            # only in call with explicit fn type; caller handles
            pass
        return r

    def _tylist(self, end):
        els = []
        if self.eat(end): return els
        while True:
            els.append(self.type())
            if self.eat(','): continue
            self.exp(end)
            return els

    def skip_parens(self):
        d = 0
        while True:
            t = self.next()
            if t == '(': d += 1
            elif t == ')':
                d -= 1
                if d == 0: return

    def param_attrs(self):
        at = {}
        while True:
            t = self.peek()
            if t in PARENATTR:
                self.next()
                if self.peek() == '(':
                    if t in ('byval', 'sret'):
                        self.next(); at[t] = self.type(); self.exp(')')
                    else:
                        self.skip_parens()
                elif t == 'align':
                    self.next()
            elif t in PARAM_ATTRS:
                self.next()
            elif t is not None and t[0] == '"' :
                self.next()
                if self.eat('='): self.next()
            else:
                return at

    # ---- values
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return Reg(t)
        if c == '@':
            return CExpr('glob', t)
        k = ty.k
        if t == 'null': return 0
        if t == 'true': return 1
        if t == 'false': return 0
        if t == 'undef' or t == 'poison': return UNDEF
        if t == 'none': return UNDEF
        if t == 'zeroinitializer': return self.m.zero_of(ty)
        if k == 'int':
            if c.isdigit() or c == '-':
                return int(t) & ((1 << ty.n) - 1)
        if k in ('double', 'float'):
            if t.startswith('0x'):
                return FConst(dbl_from_hex(t))
            if c.isdigit() or c == '-':
                return FConst(float(t))
        if k in ('x86_fp80', 'half', 'fp128'):
            return FConst(0.0) if not t.startswith('0xK') else FConst(_x87(t))
        if c == 'c' and t[1:2] == '"':
            return _cstr(t)
        if t == '{' or t == '[' or (t == '<'):
            end = {'{': '}', '[': ']', '<': '>'}[t]
            packed = False
            if t == '<' and self.peek() == '{':
                self.next(); end = '}'; packed = True
            vals = []
            if not self.eat(end):
                while True:
                    ety = self.type()
                    vals.append(self.value(ety))
                    if self.eat(','): continue
                    self.exp(end); break
            if packed: self.exp('>')
            return vals
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if self.next() == 'inrange' and self.peek() == '(': self.skip_parens()
            self.exp('(')
            bt = self.type(); self.exp(',')
            ops = self._ops(')')
            return CExpr('gep', bt, ops)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('(')
            st = self.type(); v = self.value(st)
            self.exp('to'); dt = self.type(); self.exp(')')
            return CExpr('cast', t, st, v, dt)
        if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'): self.next()
            self.exp('(')
            ops = self._ops(')')
            return CExpr('bin', t, ops)
        if t == 'icmp':
            pr = self.next(); self.exp('(')
            ops = self._ops(')')
            return CExpr('icmp', pr, ops)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return CExpr('glob', self.next())
        raise SyntaxError('value %r ty %r in %r' % (t, ty, ' '.join(self.t)[:300]))

    def _ops(self, end):
        ops = []
        while True:
            self.eat('inrange')
            ty = self.type()
            ops.append((ty, self.value(ty)))
            if self.eat(','): continue
            self.exp(end)
            return ops


class FConst:
    __slots__ = ('f',)

    def __init__(self, f): self.f = f

    def __repr__(self): return 'F%r' % self.f


def _x87(t):
    b = int(t[3:], 16)
    s = b >> 79; e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1)
    if e == 0 and m == 0: return 0.0
    v = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
    try:
        v = float(v)
    except OverflowError:
        v = float('inf')
    return -v if s else v


def _cstr(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types_src = {}
        self.types = {}
        self.globals = {}    # name -> (line)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = None
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self._define(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith('@'):
                self._global(ln)
            elif ln.startswith('%') and ' = type ' in ln:
                nm, rest = ln.split(' = type ', 1)
                self.types_src[nm] = rest
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
                self.decls[m.group(1)] = ln
            i += 1

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            t = Ty('struct', name=nm); self.types[nm] = t
            src = self.types_src.get(nm)
            if src is None or src.startswith('opaque'):
                t.k = 'opaque'
            else:
                r = P(tokenize(src), self).type()
                t.els = r.els; t.packed = r.packed; t.k = r.k
        return t

    def zero_of(self, ty):
        k = ty.k
        if k in ('int', 'ptr'): return 0
        if k in ('double', 'float', 'x86_fp80', 'half', 'fp128'): return FConst(0.0)
        if k in ('arr', 'vec'):
            if k == 'arr' and ty.n > 64: return ZEROINIT
            return [self.zero_of(ty.el) for _ in range(ty.n)]
        if k == 'struct': return [self.zero_of(e) for e in ty.els]
        return ZEROINIT

    def _global(self, ln):
        nm, rest = ln.split(' = ', 1)
        if re.match(r'.*\balias\b', rest.split('"')[0][:80]) and ' alias ' in ' ' + rest:
            m = re.search(r'alias .*?, ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
            if m:
                self.aliases[nm] = m.group(1)
                return
        self.globals[nm] = rest

    def parse_global(self, nm):
        """-> (type, initializer or None(external), constant?, threadlocal)"""
        rest = self.globals[nm]
        p = P(tokenize(rest), self)
        ext = False
        while True:
            t = p.peek()
            if t in ('global', 'constant'):
                const = t == 'constant'
                p.next()
                break
            if t in ('external', 'extern_weak'): ext = True
            p.next()
            if p.peek() == '(' : p.skip_parens()
        ty = p.type()
        if ext:
            return ty, None, const
        v = p.value(ty)
        return ty, v, const

    def _define(self, ln, body):
        f = Fn()
        # header: define <stuff> retty @name(params) stuff {
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
        f.name = m.group(1)
        f.lines = (ln, body)
        f.blocks = None
        self.funcs[f.name] = f

    def get(self, name):
        while name in self.aliases: name = self.aliases[name]
        f = self.funcs.get(name)
        if f is not None and f.blocks is None:
            self._parse_fn(f)
        return f

    def _parse_fn(self, f):
        ln, body = f.lines
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
        p = P(tokenize(ln[m.end() - 1:]), self)
        f.params = []; f.vararg = False; f.byval = []
        p.exp('(')
        nextid = 0
        if not p.eat(')'):
            while True:
                if p.eat('...'):
                    f.vararg = True; p.exp(')'); break
                ty = p.type()
                at = p.param_attrs()
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
                else:
                    nm = '%' + str(nextid)
                if nm[1:].isdigit(): nextid = int(nm[1:]) + 1
                f.params.append((ty, nm)); f.byval.append(at.get('byval'))
                if p.eat(','): continue
                p.exp(')'); break
        blocks = {}
        cur = None
        curname = None
        acc = None
        pend = None
        for raw in body:
            s = raw
            if not s or s[0] == ';': continue
            if s[0] != ' ':
                mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                if mm:
                    curname = '%' + mm.group(1)
                    cur = blocks[curname] = []
                    continue
            if cur is None:
                curname = '%' + str(nextid)   # implicit entry label
                cur = blocks[curname] = []
            t = s.strip()
            if not t or t[0] == ';': continue
            if pend is not None:
                pend += ' ' + t
                # continuation of switch / invoke / landingpad
                if pend_done(pend):
                    cur.append(pend); pend = None
                continue
            if t.startswith('switch ') and not t.rstrip().endswith(']') and '[' in t and ']' not in t[t.rindex('['):]:
                pend = t
                continue
            if (' invoke ' in ' ' + t) and ' unwind label ' not in t:
                pend = t
                continue
            if t.startswith(('catch ', 'filter ', 'cleanup')) and cur and 'landingpad' in cur[-1]:
                continue
            cur.append(t)
        f.blocks = {}
        for k, lst in blocks.items():
            f.blocks[k] = [self.inst(x) for x in lst]
        f.entry = next(iter(blocks))

    def inst(self, s):
        # strip metadata attachments
        k = s.find(', !')
        if k >= 0 and '"' not in s[:k]:
            s = s[:k]
        p = P(tokenize(s), self)
        res = None
        if p.peek(1) == '=' and p.peek()[0] == '%':
            res = p.next(); p.next()
        op = p.next()
        m = getattr(self, 'i_' + op, None)
        if m is None:
            if op in BIN: return self._bin(op, p, res)
            if op in CASTS: return self._cast(op, p, res)
            if op in CALLFLAGS:
                p.exp('call')
                return self._call(p, res)
            raise SyntaxError('inst ' + s)
        I = m(p, res)
        return I

    def _bin(self, op, p, res):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FAST: p.next()
        ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Inst(op, res, ty, a, b)

    def _cast(self, op, p, res):
        while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FAST: p.next()
        st = p.type(); a = p.value(st); p.exp('to'); dt = p.type()
        return Inst(op, res, dt, a, x=st)

    def i_fneg(self, p, res):
        while p.peek() in FAST: p.next()
        ty = p.type()
        return Inst('fneg', res, ty, p.value(ty))

    def i_freeze(self, p, res):
        ty = p.type()
        return Inst('freeze', res, ty, p.value(ty))

    def i_ret(self, p, res):
        ty = p.type()
        if ty is VOID: return Inst('ret', None, VOID)
        return Inst('ret', None, ty, p.value(ty))

    def i_br(self, p, res):
        if p.eat('label'): return Inst('br', None, None, None, p.next())
        ty = p.type(); c = p.value(ty); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
        return Inst('condbr', None, ty, c, a, b)

    def i_switch(self, p, res):
        ty = p.type(); v = p.value(ty); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
        cs = []
        while not p.eat(']'):
            t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); cs.append((c, p.next()))
        return Inst('switch', None, ty, v, d, cs)

    def i_unreachable(self, p, res): return Inst('unreachable')

    def i_resume(self, p, res): return Inst('resume')

    def i_landingpad(self, p, res): return Inst('landingpad', res)

    def i_fence(self, p, res): return Inst('nop')

    def i_icmp(self, p, res):
        while p.peek() in ('samesign',): p.next()
        pr = p.next(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Inst('icmp', res, ty, a, b, x=pr)

    def i_fcmp(self, p, res):
        while p.peek() in FAST: p.next()
        pr = p.next(); ty = p.type(); a = p.value(ty); p.exp(','); b = p.value(ty)
        return Inst('fcmp', res, ty, a, b, x=pr)

    def i_select(self, p, res):
        while p.peek() in FAST: p.next()
        ct = p.type(); c = p.value(ct); p.exp(','); t = p.type(); a = p.value(t); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Inst('select', res, t, a, b, c, x=ct)

    def i_phi(self, p, res):
        while p.peek() in FAST: p.next()
        ty = p.type(); d = {}
        while True:
            p.exp('['); v = p.value(ty); p.exp(','); l = p.next(); p.exp(']')
            d[l] = v
            if not p.eat(','): break
        return Inst('phi', res, ty, d)

    def i_load(self, p, res):
        x = None
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic': x = 'atomic'
        ty = p.type(); p.exp(','); p.type(); a = p.value(PTR)
        layout(ty)
        return Inst('load', res, ty, a, x=x)

    def i_store(self, p, res):
        x = None
        while p.peek() in ('volatile', 'atomic'):
            if p.next() == 'atomic': x = 'atomic'
        ty = p.type(); v = p.value(ty); p.exp(','); p.type(); a = p.value(PTR)
        layout(ty)
        return Inst('store', None, ty, v, a, x=x)

    def i_alloca(self, p, res):
        p.eat('inalloca')
        ty = p.type(); n = 1; al = 8
        layout(ty)
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type(); n = p.value(nt)
        return Inst('alloca', res, ty, n)

    def i_getelementptr(self, p, res):
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(','); layout(bt)
        pt = p.type(); base = p.value(pt)
        idx = []
        while p.eat(','):
            t = p.type(); idx.append((t, p.value(t)))
        # precompute: const offset + list of (scale, bits, operand)
        I = Inst('gep', res, pt, base)
        if pt.k == 'vec' or any(t.k == 'vec' for t, _ in idx):
            raise SyntaxError('vector gep')
        off = 0; dyn = []
        cur = bt
        for n, (t, v) in enumerate(idx):
            if n == 0:
                sc = bt.size
            elif cur.k == 'struct':
                layout(cur)
                if not isinstance(v, int): raise SyntaxError('gep struct idx')
                off += cur.offs[v]; cur = cur.els[v]
                continue
            else:
                cur = cur.el; layout(cur); sc = cur.size
            if isinstance(v, int):
                if v >> (t.n - 1): v -= 1 << t.n
                off += v * sc
            else:
                dyn.append((sc, t.n, v))
        I.b = off; I.c = dyn
        return I

    def i_extractvalue(self, p, res):
        ty = p.type(); a = p.value(ty); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Inst('extractvalue', res, ty, a, idx)

    def i_insertvalue(self, p, res):
        ty = p.type(); a = p.value(ty); p.exp(','); t2 = p.type(); b = p.value(t2); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return Inst('insertvalue', res, ty, a, b, idx)

    def i_extractelement(self, p, res):
        ty = p.type(); a = p.value(ty); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Inst('extractelement', res, ty, a, b)

    def i_insertelement(self, p, res):
        ty = p.type(); a = p.value(ty); p.exp(','); t2 = p.type(); b = p.value(t2); p.exp(','); t3 = p.type(); c = p.value(t3)
        return Inst('insertelement', res, ty, a, b, c)

    def i_shufflevector(self, p, res):
        ty = p.type(); a = p.value(ty); p.exp(','); t2 = p.type(); b = p.value(t2); p.exp(','); t3 = p.type(); c = p.value(t3)
        return Inst('shufflevector', res, ty, a, b, c, x=t3)

    def i_atomicrmw(self, p, res):
        p.eat('volatile')
        op = p.next(); p.type(); a = p.value(PTR); p.exp(','); ty = p.type(); b = p.value(ty); layout(ty)
        return Inst('atomicrmw', res, ty, a, b, x=op)

    def i_cmpxchg(self, p, res):
        p.eat('weak'); p.eat('volatile')
        p.type(); a = p.value(PTR); p.exp(','); ty = p.type(); b = p.value(ty); p.exp(','); p.type(); c = p.value(ty); layout(ty)
        return Inst('cmpxchg', res, ty, a, b, c)

    def i_call(self, p, res): return self._call(p, res)

    def i_invoke(self, p, res): return self._call(p, res, True)

    def _call(self, p, res, invoke=False):
        while True:
            t = p.peek()
            if t in FAST or t in CALLFLAGS or t in CCONV:
                p.next()
                if t == 'cc': p.next()
            else:
                break
        p.param_attrs()
        rt = p.type()
        if p.peek() == '(':   # explicit function type
            p.skip_parens()
        callee = p.next()
        if callee == 'asm':
            # inline asm: skip
            while p.peek() != '(': p.next()
            cal = CExpr('asm')
        elif callee[0] == '%': cal = Reg(callee)
        elif callee[0] == '@': cal = callee
        else:
            p.i -= 1
            cal = p.value(PTR)
        p.exp('(')
        args = []
        if not p.eat(')'):
            while True:
                ty = p.type()
                if ty is META:
                    # metadata operand: skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        t = p.next()
                        if t in '([{': d += 1
                        if t in ')]}': d -= 1
                    v = UNDEF; at = None
                else:
                    at = p.param_attrs()
                    v = p.value(ty)
                args.append((ty, v, at.get('byval') if at else None))
                if p.eat(','): continue
                p.exp(')'); break
        I = Inst('call', res, rt, cal, args)
        if invoke:
            while p.peek() != 'to': p.next()
            p.next(); p.exp('label'); n = p.next(); p.exp('unwind'); p.exp('label'); u = p.next()
            I.op = 'invoke'; I.c = (n, u)
        return I


def pend_done(s):
    if s.startswith('switch '): return re.search(r'\](, ![\w.]+ !\d+)*$', s.rstrip()) is not None
    return ' unwind label ' in s


ZEROINIT = Zero()
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'addrspacecast'}
