"""Symbolic interpreter for textual LLVM IR (opaque pointers, clang 18 output).

The module is produced by clang from the real C++ sources plus a harness.  Integers are Python ints or
z3 bit-vectors; a branch, address or length that depends on symbolic values is decided by the solver:
every feasible side is explored (by re-execution with a recorded list of decisions), so what is checked
is every value of the symbolic inputs within the harness's bounds.
"""
import re, sys, time, bisect, struct
import z3

TOK = re.compile(r'''
 c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" | %"[^"]*" | @"[^"]*" | [%@][-\w.$]+ | \$"[^"]*" | ![\w.]* | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[HKLM]?[0-9A-Fa-f]+ | -?\d+ | [A-Za-z_][\w.]* | \.\.\. | [()\[\]{}<>,=*|]
''', re.X)

class IRError(Exception): pass
class PathEnd(Exception): pass
class Infeasible(PathEnd): pass
class Violation(Exception):
    def __init__(self, what, model=None): self.what = what; self.model = model
class Undecided(Exception): pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'size', 'align', 'offs')
    def __repr__(self): return f'{self.k}{self.n}'
_tycache = {}
def mkint(n):
    t = _tycache.get(('i', n))
    if t is None:
        t = Ty(); t.k = 'i'; t.n = n; t.e = None
        t.size = (n + 7) // 8
        if t.size not in (1, 2, 4, 8, 16): t.size = 1 << (t.size - 1).bit_length()
        t.align = min(t.size, 16); t.offs = None
        _tycache[('i', n)] = t
    return t
def _prim(k, size):
    t = Ty(); t.k = k; t.n = size * 8; t.e = None; t.size = size; t.align = max(size, 1); t.offs = None
    return t
PTR = _prim('p', 8); VOID = _prim('v', 0); FLOAT = _prim('f', 4); DOUBLE = _prim('f', 8); LABEL = _prim('l', 0)
FP80 = _prim('f', 16); META = _prim('m', 0)
def mkarr(n, e, k='a'):
    t = Ty(); t.k = k; t.n = n; t.e = e; t.size = n * e.size; t.align = e.align if k == 'a' else t.size or 1; t.offs = None
    return t
def mkstruct(es, packed=False):
    t = Ty(); t.k = 's'; t.n = len(es); t.e = es; o = 0; al = 1; offs = []
    for e in es:
        if not packed:
            o = (o + e.align - 1) // e.align * e.align; al = max(al, e.align)
        offs.append(o); o += e.size
    t.size = (o + al - 1) // al * al; t.align = al; t.offs = offs
    return t

class P:
    """token cursor"""
    def __init__(s, toks): s.t = toks; s.i = 0
    def pk(s): return s.t[s.i] if s.i < len(s.t) else None
    def nx(s): v = s.t[s.i]; s.i += 1; return v
    def acc(s, v):
        if s.i < len(s.t) and s.t[s.i] == v: s.i += 1; return True
        return False
    def exp(s, v):
        if not s.acc(v): raise IRError(f'expected {v} at {s.t[max(0, s.i-6):s.i+6]}')

WORDATTR = set('''noundef nonnull zeroext signext inreg returned nocapture readonly readnone writeonly noalias immarg nofree
 nest swiftself noreturn nounwind local_unnamed_addr unnamed_addr dso_local dso_preemptable tail musttail notail fastcc ccc coldcc fast
 nuw nsw exact inbounds volatile atomic disjoint nneg linkonce_odr linkonce weak weak_odr internal private external
 hidden protected default available_externally common appending extern_weak comdat constant global thread_local
 nnan ninf nsz arcp contract afn reassoc allocptr dead_on_unwind writable samesign nusw inrange'''.split())
ORDER = {'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst', 'unordered'}

class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'nreg', 'lines', 'decoded', 'va', 'addr', 'byval', 'pname')

class Module:
    def __init__(self, text):
        self.types = {}; self.tydefs = {}; self.funcs = {}; self.globals = {}; self.decls = set(); self.ctors = []
        self.load(text)

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            src = self.tydefs.get(n)
            if src is None: t = mkstruct([])
            else:
                t = self.ptype(P(src))
            self.types[n] = t
        return t

    def ptype(self, p):
        v = p.nx()
        if v[0] == 'i' and v[1:].isdigit(): t = mkint(int(v[1:]))
        elif v == 'ptr':
            t = PTR
            if p.acc('addrspace'): p.exp('('); p.nx(); p.exp(')')
        elif v == 'void': t = VOID
        elif v == 'float': t = FLOAT
        elif v == 'double': t = DOUBLE
        elif v == 'x86_fp80': t = FP80
        elif v == 'label': t = LABEL
        elif v == 'metadata': t = META
        elif v == 'opaque': t = mkstruct([])
        elif v == '[':
            n = int(p.nx()); p.exp('x'); e = self.ptype(p); p.exp(']'); t = mkarr(n, e)
        elif v == '<':
            if p.pk() == '{':
                p.nx(); es = self.plist(p, '}'); p.exp('>'); t = mkstruct(es, True)
            else:
                n = int(p.nx()); p.exp('x'); e = self.ptype(p); p.exp('>'); t = mkarr(n, e, 'vec')
        elif v == '{':
            t = mkstruct(self.plist(p, '}'))
        elif v[0] == '%': t = self.named(v)
        else: raise IRError('type ' + v + ' in ' + ' '.join(p.t[max(0, p.i-8):p.i+8]))
        # function type  T (args)
        if p.pk() == '(' and getattr(self, 'fty', False):
            pass
        return t

    def plist(self, p, end):
        es = []
        if p.acc(end): return es
        while True:
            es.append(self.ptype(p))
            if p.acc(end): return es
            p.exp(',')

    def load(self, text):
        lines = text.split('\n'); i = 0; glob = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                body = []; i += 1
                while lines[i] != '}': body.append(lines[i]); i += 1
                self.deffn(l, body)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l); self.decls.add(m.group(1).strip('"'))
            elif l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1); self.tydefs[n] = TOK.findall(d)
            elif l.startswith('@'): glob.append(l)
            i += 1
        for l in glob: self.defglob(l)

    def skipattrs(self, p):
        """skip parameter/return attributes; returns dict of typed ones"""
        at = {}
        while True:
            v = p.pk()
            if v in WORDATTR: p.nx(); at[v] = True
            elif v in ('align', 'addrspace') :
                p.nx()
                if p.pk() == '(' : p.nx(); p.nx(); p.exp(')')
                else: p.nx()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'alignstack', 'captures', 'memory', 'nofpclass', 'range', 'allocsize', 'initializes'):
                p.nx(); self.parens(p)
            elif v in ('sret', 'byval', 'byref', 'inalloca', 'elementtype', 'preallocated'):
                p.nx(); p.exp('('); at[v] = self.ptype(p); p.exp(')')
            else: return at

    def parens(self, p):
        p.exp('('); d = 1
        while d:
            v = p.nx()
            if v == '(': d += 1
            elif v == ')': d -= 1

    def deffn(self, l, body):
        p = P(TOK.findall(l)); p.exp('define')
        while True:
            self.skipattrs(p)
            if p.pk() == 'cc': p.nx(); p.nx(); continue
            break
        f = Func(); f.ret = self.ptype(p)
        n = p.nx(); f.name = n[1:].strip('"'); p.exp('(')
        f.params = []; f.byval = []; f.va = False; f.pname = []
        while not p.acc(')'):
            if p.acc('...'): f.va = True; continue
            t = self.ptype(p); at = self.skipattrs(p); f.byval.append(at.get('byval')); f.params.append(t)
            f.pname.append(p.nx() if p.pk() and p.pk()[0] == '%' else None); p.acc(',')
        f.lines = body; f.decoded = False; self.funcs[f.name] = f

    def defglob(self, l):
        p = P(TOK.findall(l)); n = p.nx()[1:].strip('"'); p.exp('=')
        ext = False; isalias = False
        while True:
            v = p.pk()
            if v in ('external', 'extern_weak'): ext = True
            if v in WORDATTR or v in ('addrspace',):
                p.nx()
                if p.pk() == '(': self.parens(p)
            elif v == 'alias': isalias = True; p.nx(); break
            elif v == 'ifunc': return
            else: break
        t = self.ptype(p)
        if isalias:
            if p.pk() == '(': self.parens(p)
            p.exp(','); p.exp('ptr'); self.globals[n] = ('alias', p.nx()[1:].strip('"')); return
        if n == 'llvm.global_ctors':
            self.ctors = [x[1:].strip('"') for x in p.t if x[0] == '@' and x != '@llvm.global_ctors' and x != '@'][0:]
            return
        self.globals[n] = ('ext' if ext else 'var', t, None if ext else self.const(p, t), 'constant' in p.t[:12])

    # constants -> nested representation
    def const(self, p, t):
        v = p.nx()
        if v == 'zeroinitializer': return ('zero', t)
        if v in ('undef', 'poison'): return ('undef', t)
        if v == 'null': return ('int', t, 0)
        if v == 'true': return ('int', t, 1)
        if v == 'false': return ('int', t, 0)
        if t.k == 'f':
            if v.startswith('0xK'): return ('fp', t, 0.0)
            if v.startswith('0x'): return ('fp', t, struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
            return ('fp', t, float(v))
        if re.fullmatch(r'-?\d+', v): return ('int', t, int(v) & ((1 << t.n) - 1))
        if v[0] == '@': return ('sym', v[1:].strip('"'))
        if v[0] == 'c' and v[1:2] == '"':
            b = bytearray(); s = v[2:-1]; i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(s[i+1:i+3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if v in ('[', '{', '<'):
            if v == '<' and p.pk() == '{': p.nx(); e = self.clist(p, '}'); p.exp('>'); return ('agg', t, e)
            return ('agg', t, self.clist(p, {'[': ']', '{': '}', '<': '>'}[v]))
        if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'add', 'sub', 'addrspacecast', 'mul'):
            while p.pk() in WORDATTR:
                w = p.nx()
                if w == 'inrange' and p.pk() == '(': self.parens(p)
            p.exp('(')
            if v == 'getelementptr':
                bt = self.ptype(p); p.exp(','); pt = self.ptype(p); base = self.const(p, pt); idx = []
                while p.acc(','):
                    p.acc('inrange'); it = self.ptype(p); idx.append((it, self.const(p, it)))
                p.exp(')'); return ('gep', bt, base, idx)
            if v in ('add', 'sub', 'mul'):
                ta = self.ptype(p); a = self.const(p, ta); p.exp(','); tb = self.ptype(p); b = self.const(p, tb); p.exp(')')
                return (v, t, a, b)
            ta = self.ptype(p); a = self.const(p, ta); p.exp('to'); tb = self.ptype(p); p.exp(')')
            return ('cast', tb, a)
        if v == 'dso_local_equivalent' or v == 'no_cfi': return ('sym', p.nx()[1:].strip('"'))
        raise IRError(f'const {v} {p.t[max(0,p.i-6):p.i+6]}')

    def clist(self, p, end):
        es = []
        if p.acc(end): return es
        while True:
            t = self.ptype(p); es.append((t, self.const(p, t)))
            if p.acc(end): return es
            p.exp(',')

# ---------------------------------------------------------------- values
def M(n): return (1 << n) - 1
def isz(v): return isinstance(v, z3.ExprRef)
def bv(v, n):
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v
def sgn(v, n): return v - (1 << n) if v >> (n - 1) else v
def simp(e):
    e = z3.simplify(e)
    if isinstance(e, z3.BitVecNumRef): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e
def asbool(v):
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return v
    return v == z3.BitVecVal(1, v.size())

def binop(op, a, b, n, m):
    if isinstance(a, int) and isinstance(b, int):
        if op == 'add': return (a + b) & M(n)
        if op == 'sub': return (a - b) & M(n)
        if op == 'mul': return (a * b) & M(n)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & M(n) if b < n else 0
        if op == 'lshr': return a >> b if b < n else 0
        if op == 'ashr': return (sgn(a, n) >> min(b, n - 1)) & M(n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if b == 0: m.viol('division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, n), sgn(b, n); q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & M(n)
    if n == 1:
        x, y = asbool(a), asbool(b)
        if op == 'and': return simp(z3.And(x, y))
        if op == 'or': return simp(z3.Or(x, y))
        if op in ('xor', 'add', 'sub'): return simp(z3.Xor(x, y))
        if op == 'mul': return simp(z3.And(x, y))
        raise IRError('i1 ' + op)
    x, y = bv(a, n), bv(b, n)
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        if isinstance(b, int):
            if b == 0: m.viol('division by zero')
        else: m.require(y != 0, 'division by zero')
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
         'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
         'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
    return simp(r)

def icmp(pred, a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's': a, b = sgn(a, n), sgn(b, n)
        q = pred if len(pred) == 2 else pred[1:]
        return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q])
    if n == 1:
        x, y = asbool(a), asbool(b)
        if pred == 'eq': return simp(x == y)
        if pred == 'ne': return simp(z3.Xor(x, y))
    x, y = bv(a, n), bv(b, n)
    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
         'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
         'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
    return simp(r)

class Obj:
    __slots__ = ('base', 'size', 'data', 'kind', 'live', 'ro')

UNDEF = ('undef',)

class Machine:
    """one path"""
    def __init__(self, mod, prefix, eng):
        self.mod = mod; self.eng = eng; self.prefix = prefix; self.dec = []
        self.solver = z3.SolverFor('QF_BV') if eng.logic else z3.Solver()
        self.solver.set('timeout', eng.qtimeout)
        self.syms = []; self.bases = []; self.objs = {}; self.next = 0x10000
        self.gaddr = {}; self.faddr = {}; self.fby = {}; self.steps = 0; self.depth = 0; self.fresh = 0
        self.model = None; self.pc = []
        self.setup()

    # -- memory
    def alloc(self, size, kind):
        o = Obj(); o.base = self.next; o.size = size; o.data = [None] * size; o.kind = kind; o.live = True; o.ro = False
        self.next = (self.next + size + 64 + 15) & ~15
        self.bases.append(o.base); self.objs[o.base] = o
        return o
    def find(self, a, n, what):
        i = bisect.bisect_right(self.bases, a) - 1
        if i >= 0:
            o = self.objs[self.bases[i]]
            off = a - o.base
            if off <= o.size:
                if not o.live: self.viol(f'{what} after free')
                if off + n > o.size: self.viol(f'{what} out of bounds')
                return o, off
        self.viol(f'{what} through an invalid pointer' if a >= 4096 else f'{what} through a null pointer')
    def rdbytes(self, a, n, what='read'):
        if n == 0: return []
        a = self.conc(a); o, off = self.find(a, n, what); return o.data[off:off+n]
    def wrbytes(self, a, bs, what='write'):
        if not bs: return
        a = self.conc(a); o, off = self.find(a, len(bs), what); o.data[off:off+len(bs)] = bs
    def loadint(self, a, nbits):
        n = (nbits + 7) // 8
        bs = self.rdbytes(a, n)
        r = self.joinb(bs, nbits)
        return r
    def joinb(self, bs, nbits):
        n = len(bs)
        b0 = bs[0]
        if type(b0) is int:
            v = 0; ok = True
            for i in range(n - 1, -1, -1):
                b = bs[i]
                if type(b) is not int: ok = False; break
                v = v << 8 | b
            if ok: return v & M(nbits)
        if type(b0) is tuple and b0[1] == 0 and b0[2] == n:
            e = b0[0]; ok = True
            for i in range(1, n):
                b = bs[i]
                if type(b) is not tuple or b[0] is not e or b[1] != i: ok = False; break
            if ok:
                if nbits == 1 or nbits % 8: return simp(z3.Extract(nbits - 1, 0, bv(e, n * 8))) if nbits != 1 else simp(z3.Extract(0, 0, bv(e, 8)) == 1)
                return e
        if all(b is None for b in bs):
            return self.undef(nbits)
        parts = []
        for b in bs:
            if b is None: parts.append(bv(self.undef(8), 8))
            elif type(b) is int: parts.append(z3.BitVecVal(b, 8))
            else: parts.append(z3.Extract(b[1] * 8 + 7, b[1] * 8, b[0]))
        e = z3.Concat(*reversed(parts)) if n > 1 else parts[0]
        if nbits == 1: return simp(z3.Extract(0, 0, e) == 1)
        if nbits != n * 8: e = z3.Extract(nbits - 1, 0, e)
        return simp(e)
    def split(self, v, nbits):
        n = (nbits + 7) // 8
        if type(v) is int: return list(v.to_bytes(n, 'little'))
        if isinstance(v, z3.BoolRef): v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        elif nbits % 8: v = z3.ZeroExt(n * 8 - nbits, v)
        return [(v, i, n) for i in range(n)]
    def undef(self, nbits):
        self.fresh += 1
        if nbits == 1: return z3.Bool(f'undef{self.fresh}')
        return z3.BitVec(f'undef{self.fresh}', nbits)
    def load(self, t, a):
        if t.k == 'i': return self.loadint(a, t.n)
        if t.k == 'p': return self.loadint(a, 64)
        if t.k == 'f':
            v = self.loadint(a, t.n)
            if type(v) is not int: return float('nan')
            return struct.unpack('<f' if t.size == 4 else '<d', v.to_bytes(t.size, 'little'))[0]
        a = self.conc(a)
        if t.k in ('a', 'vec'): return tuple(self.load(t.e, a + i * t.e.size) for i in range(t.n))
        if t.k == 's': return tuple(self.load(e, a + o) for e, o in zip(t.e, t.offs))
        raise IRError('load ' + t.k)
    def store(self, t, v, a):
        if v is UNDEF: a = self.conc(a); self.wrbytes(a, [None] * t.size); return
        if t.k == 'i': self.wrbytes(a, self.split(v, t.n)); return
        if t.k == 'p': self.wrbytes(a, self.split(v, 64)); return
        if t.k == 'f':
            self.wrbytes(a, list(struct.pack('<f' if t.size == 4 else '<d', v))); return
        a = self.conc(a)
        if t.k in ('a', 'vec'):
            for i in range(t.n): self.store(t.e, v[i], a + i * t.e.size)
        elif t.k == 's':
            for e, o, x in zip(t.e, t.offs, v): self.store(e, x, a + o)
        else: raise IRError('store ' + t.k)

    # -- decisions
    def conc(self, v):
        if type(v) is int: return v
        if v is UNDEF: self.viol('use of an undefined address or length')
        v = simp(v)
        if type(v) is int: return v
        k = len(self.dec)
        if k < len(self.prefix):
            c = self.prefix[k]; self.dec.append(c); self.assume(v == c); return c
        vals = []; self.solver.push()
        while True:
            r = self.chk()
            if r == z3.unsat: break
            if r != z3.sat: raise Undecided('concretise')
            x = self.solver.model().eval(v, model_completion=True).as_long()
            vals.append(x); self.solver.add(v != x)
            if len(vals) > self.eng.maxconc: raise Undecided(f'too many values for an address or length')
        self.solver.pop()
        if not vals: raise Infeasible()
        vals.sort()
        for x in vals[1:]: self.eng.work.append(self.dec + [x])
        c = vals[0]; self.dec.append(c)
        if len(vals) > 1: self.assume(v == c)
        return c
    def chk(self, *a):
        t = time.time(); r = self.solver.check(*a); self.eng.stime += time.time() - t; self.eng.queries += 1
        return r
    def assume(self, c):
        self.solver.add(c); self.pc.append(c)
    def branch(self, c):
        """c: int or Bool -> python bool"""
        if type(c) is int: return c != 0
        if c is UNDEF: self.viol('branch on an undefined value')
        c = asbool(c)
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.dec)
        if k < len(self.prefix):
            d = self.prefix[k]; self.dec.append(d)
            self.assume(c if d else z3.Not(c)); return bool(d)
        rt = self.chk(c)
        if rt == z3.unknown: raise Undecided('branch')
        if rt == z3.unsat:
            self.dec.append(0); return False
        rf = self.chk(z3.Not(c))
        if rf == z3.unknown: raise Undecided('branch')
        if rf == z3.unsat:
            self.dec.append(1); return True
        self.eng.work.append(self.dec + [0]); self.dec.append(1); self.assume(c)
        return True
    def require(self, c, what):
        """assertion"""
        self.eng.asserts[what] = self.eng.asserts.get(what, 0) + 1
        if type(c) is int:
            if not c: self.viol(what)
            return
        c = asbool(c)
        r = self.chk(z3.Not(c))
        if r == z3.unsat: return
        if r == z3.unknown: raise Undecided('assert ' + what)
        raise Violation(what, self.values(self.solver.model()))
    def viol(self, what):
        r = self.chk()
        if r == z3.unsat: raise Infeasible()
        if r != z3.sat: raise Undecided(what)
        raise Violation(what, self.values(self.solver.model()))
    def values(self, mdl):
        out = []
        for name, v in self.syms:
            if type(v) is int: out.append((name, v)); continue
            x = mdl.eval(v, model_completion=True)
            out.append((name, x.as_long() if hasattr(x, 'as_long') else int(z3.is_true(x))))
        return out

    # -- globals
    def setup(self):
        m = self.mod
        names = list(m.globals)
        for i, fn in enumerate(sorted(set(m.funcs) | m.decls)):
            a = 0x1000 + 8 * 0  # placeholder
        fa = 0x7f0000000000
        for fn in sorted(set(m.funcs) | m.decls):
            self.faddr[fn] = fa; self.fby[fa] = fn; fa += 16
        for n in names:
            g = m.globals[n]
            if g[0] == 'alias': continue
            t = g[1]; o = self.alloc(max(t.size, 1) if g[0] != 'ext' else max(t.size, 512), 'global')
            self.gaddr[n] = o.base
        for n in names:
            g = m.globals[n]
            if g[0] == 'alias':
                self.gaddr[n] = self.faddr.get(g[1]) or self.gaddr[g[1]]
        for n in names:
            g = m.globals[n]
            if g[0] == 'var': self.initc(self.gaddr[n], g[1], g[2])
            elif g[0] == 'ext':
                o = self.objs[self.gaddr[n]]; o.data = [0] * o.size
                if n == '__libc_single_threaded': o.data[0] = 1
    def initc(self, a, t, c):
        if c[0] == 'zero': self.wrbytes(a, [0] * t.size)
        elif c[0] == 'undef': pass
        elif c[0] == 'bytes': self.wrbytes(a, list(c[1]))
        elif c[0] == 'agg':
            if t.k == 's':
                for (et, ec), o in zip(c[2], t.offs): self.initc(a + o, et, ec)
            else:
                for i, (et, ec) in enumerate(c[2]): self.initc(a + i * et.size, et, ec)
        else: self.store(t, self.cval(c, t), a)
    def cval(self, c, t=None):
        k = c[0]
        if k == 'int': return c[2]
        if k == 'fp': return c[2]
        if k == 'sym':
            n = c[1]
            if n in self.gaddr: return self.gaddr[n]
            if n in self.faddr: return self.faddr[n]
            raise IRError('symbol ' + n)
        if k == 'undef': return UNDEF if c[1].k in 'ipf' else self.aggundef(c[1])
        if k == 'zero': return self.aggzero(c[1])
        if k == 'agg': return tuple(self.cval(ec, et) for et, ec in c[2])
        if k == 'gep':
            b = self.cval(c[2])
            return self.gep(c[1], b, [(self.cval(x), it.n) for it, x in c[3]])
        if k == 'cast':
            v = self.cval(c[2]); return v & M(64 if c[1].k == 'p' else c[1].n) if type(v) is int else v
        if k in ('add', 'sub', 'mul'): return binop(k, self.cval(c[2]), self.cval(c[3]), c[1].n, self)
        if k == 'bytes': return tuple(c[1])
        raise IRError('cval ' + k)
    def aggzero(self, t):
        if t.k in 'ip': return 0
        if t.k == 'f': return 0.0
        if t.k in ('a', 'vec'): return tuple(self.aggzero(t.e) for _ in range(t.n))
        return tuple(self.aggzero(e) for e in t.e)
    def aggundef(self, t):
        if t.k in 'ipf': return UNDEF
        if t.k in ('a', 'vec'): return tuple(self.aggundef(t.e) for _ in range(t.n))
        return tuple(self.aggundef(e) for e in t.e)
    def gep(self, t, base, idx):
        off = 0; sym = None
        first = True
        for v, n in idx:
            if first: sz = t.size; first = False
            elif t.k in ('a', 'vec'): t = t.e; sz = t.size
            elif t.k == 's':
                off += t.offs[v]; t = t.e[v]; continue
            else: raise IRError('gep')
            if type(v) is int: off += sgn(v, n) * sz
            else:
                if v is UNDEF: self.viol('undefined index')
                x = bv(v, n)
                if n < 64: x = z3.SignExt(64 - n, x)
                x = x * sz
                sym = x if sym is None else sym + x
        if type(base) is int and sym is None: return (base + off) & M(64)
        if base is UNDEF: self.viol('undefined pointer')
        r = bv(base, 64) + (off & M(64))
        if sym is not None: r = r + sym
        return simp(r)

    # -- execution
    def call(self, name, args):
        eng = self.eng
        h = eng.lookup(name)
        if h is not None: return h(self, args)
        f = self.mod.funcs.get(name)
        if f is None:
            g = self.mod.globals.get(name)
            if g and g[0] == 'alias': return self.call(g[1], args)
            raise IRError('external function ' + name)
        eng.called[name] = eng.called.get(name, 0) + 1
        if not f.decoded: decode(self.mod, f)
        R = [None] * f.nreg
        stackobjs = []
        for i, b in enumerate(f.byval):
            v = args[i]
            if b is not None:
                o = self.alloc(b.size, 'stack'); stackobjs.append(o); o.data[:] = self.rdbytes(v, b.size); v = o.base
            R[i] = v
        self.depth += 1
        if self.depth > 400: raise Undecided('recursion depth')
        blk = f.blocks[f.entry]; prev = None
        while True:
            phis, ins, term = blk
            if phis:
                vals = [(d, g[prev](self, R)) for d, g in phis]
                for d, v in vals: R[d] = v
            for fn in ins: fn(self, R, stackobjs)
            self.steps += len(ins) + 1
            if self.steps > eng.maxsteps: raise Undecided('step limit')
            k = term[0]
            if k == 'br': prev, blk = term[2], f.blocks[term[1]]; continue
            if k == 'cbr':
                c = term[1](self, R)
                if type(c) is not int: c = self.branch(c)
                prev, blk = term[4], f.blocks[term[2] if c else term[3]]; continue
            if k == 'ret':
                self.depth -= 1
                r = term[1](self, R) if term[1] else None
                for o in stackobjs: self.kill(o)
                return r
            if k == 'switch':
                v = term[1](self, R)
                if type(v) is int: tgt = term[3].get(v, term[4])
                else:
                    tgt = None
                    for cv, lb in term[3].items():
                        if self.branch(simp(bv(v, term[2]) == cv)): tgt = lb; break
                    if tgt is None: tgt = term[4]
                prev, blk = term[5], f.blocks[tgt]; continue
            if k == 'unreachable': self.viol('unreachable code reached (undefined behaviour)')
            raise IRError('term ' + k)
    def kill(self, o):
        o.live = False; o.data = None
        if self.bases and self.bases[-1] == o.base:
            pass

# ---------------------------------------------------------------- decoding
def decode(mod, f):
    regs = {}; nreg = 0
    blocks = {}; cur = None; order = []
    cnt = 0
    for i, n in enumerate(f.pname):
        nm = n or f'%{i}'
        regs[nm] = nreg; nreg += 1
    unnamed = sum(1 for n in f.pname if n is None or n[1:].isdigit())
    curlab = f'%{unnamed}'; f.entry = curlab
    raw = {}; raw[curlab] = []; order.append(curlab); first = True
    # join multi-line switch
    lines = []; buf = None
    for l in f.lines:
        if buf is not None:
            buf += ' ' + l.strip()
            if l.strip().startswith(']'): lines.append(buf); buf = None
            continue
        if l.lstrip().startswith('switch ') and not l.rstrip().endswith(']'):
            buf = l; continue
        lines.append(l)
    for l in lines:
        s = l.strip()
        if not s or s[0] == ';': continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if m:
            lab = '%' + m.group(1)
            if first and not raw[curlab]:
                del raw[curlab]; order.pop(); f.entry = lab
            curlab = lab; raw[lab] = []; order.append(lab); first = False; continue
        first = False
        raw[curlab].append(s)
    # assign registers
    for lab in order:
        for s in raw[lab]:
            m = re.match(r'^(%"[^"]*"|%[-\w.$]+) = ', s)
            if m and m.group(1) not in regs: regs[m.group(1)] = nreg; nreg += 1
    f.nreg = nreg
    for lab in order:
        phis = []; ins = []; term = None
        for s in raw[lab]:
            toks = TOK.findall(s.split(', !')[0] if ', !' in s else s)
            p = P(toks); dst = None
            if len(toks) > 1 and toks[1] == '=' : dst = regs[p.nx()]; p.nx()
            try:
                r = dec1(mod, f, regs, p, dst, lab, s)
            except (IRError, IndexError, KeyError) as e:
                raise IRError(f'{e} in {f.name}: {s}')
            if r is None: continue
            if r[0] == 'phi': phis.append((dst, r[1]))
            elif r[0] == 'term': term = r[1]
            else: ins.append(r[1])
        blocks[lab] = (phis, ins, term)
    f.blocks = blocks; f.decoded = True; f.lines = None

def operand(mod, regs, p, t):
    v = p.pk()
    if v[0] == '%':
        p.nx(); i = regs[v]
        return lambda m, R: R[i]
    c = mod.const(p, t)
    if c[0] in ('int', 'fp'):
        k = c[2]; return lambda m, R: k
    cache = {}
    def g(m, R):
        # constants over symbols have the same address on every path
        try: return cache[0]
        except KeyError:
            cache[0] = m.cval(c, t); return cache[0]
    return g

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b, 'fmul': lambda a, b: a * b, 'fdiv': lambda a, b: a / b if b else float('inf')}

def tyv(mod, regs, p):
    t = mod.ptype(p); mod.skipattrs(p); return t, operand(mod, regs, p, t)

def width(t): return 64 if t.k == 'p' else t.n

def dec1(mod, f, regs, p, dst, lab, s):
    op = p.nx()
    while op in ('tail', 'musttail', 'notail'): op = p.nx()
    if op in BIN:
        while p.pk() in WORDATTR: p.nx()
        t = mod.ptype(p); a = operand(mod, regs, p, t); p.exp(','); b = operand(mod, regs, p, t)
        if t.k == 'vec':
            n = t.e.n
            def ex(m, R, S): R[dst] = tuple(binop(op, x, y, n, m) for x, y in zip(a(m, R), b(m, R)))
            return ('i', ex)
        n = t.n
        def ex(m, R, S):
            x = a(m, R); y = b(m, R)
            if x is UNDEF: x = m.undef(n)
            if y is UNDEF: y = m.undef(n)
            R[dst] = binop(op, x, y, n, m)
        return ('i', ex)
    if op in FBIN:
        while p.pk() in WORDATTR: p.nx()
        t = mod.ptype(p); a = operand(mod, regs, p, t); p.exp(','); b = operand(mod, regs, p, t); fn = FBIN[op]
        def ex(m, R, S): R[dst] = fn(a(m, R), b(m, R))
        return ('i', ex)
    if op == 'icmp':
        p.acc('samesign')
        pred = p.nx(); t = mod.ptype(p); a = operand(mod, regs, p, t); p.exp(','); b = operand(mod, regs, p, t); n = width(t)
        def ex(m, R, S):
            x = a(m, R); y = b(m, R)
            if x is UNDEF: x = m.undef(n)
            if y is UNDEF: y = m.undef(n)
            R[dst] = icmp(pred, x, y, n)
        return ('i', ex)
    if op == 'fcmp':
        while p.pk() in WORDATTR: p.nx()
        pred = p.nx(); t = mod.ptype(p); a = operand(mod, regs, p, t); p.exp(','); b = operand(mod, regs, p, t)
        F = {'gt': lambda x, y: x > y, 'lt': lambda x, y: x < y, 'ge': lambda x, y: x >= y, 'le': lambda x, y: x <= y, 'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'no': lambda x, y: x != x or y != y}[pred[1:]]
        def ex(m, R, S): R[dst] = int(F(a(m, R), b(m, R)))
        return ('i', ex)
    if op == 'load':
        while p.pk() in WORDATTR: p.nx()
        t = mod.ptype(p); p.exp(','); _, a = tyv(mod, regs, p)
        def ex(m, R, S): R[dst] = m.load(t, a(m, R))
        return ('i', ex)
    if op == 'store':
        while p.pk() in WORDATTR: p.nx()
        t, v = tyv(mod, regs, p); p.exp(','); _, a = tyv(mod, regs, p)
        def ex(m, R, S): m.store(t, v(m, R), a(m, R))
        return ('i', ex)
    if op == 'getelementptr':
        while p.pk() in WORDATTR: p.nx()
        t = mod.ptype(p); p.exp(','); _, b = tyv(mod, regs, p); idx = []
        while p.acc(','): it, iv = tyv(mod, regs, p); idx.append((iv, it.n))
        def ex(m, R, S): R[dst] = m.gep(t, b(m, R), [(g(m, R), n) for g, n in idx])
        return ('i', ex)
    if op == 'alloca':
        p.acc('inalloca'); t = mod.ptype(p); cnt = None
        if p.acc(','):
            if p.pk() != 'align': _, cnt = tyv(mod, regs, p)
        def ex(m, R, S):
            n = m.conc(cnt(m, R)) if cnt else 1
            o = m.alloc(t.size * n, 'stack'); S.append(o); R[dst] = o.base
        return ('i', ex)
    if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
        while p.pk() in WORDATTR: p.nx()
        t, a = tyv(mod, regs, p)
        t2 = t
        if op != 'freeze': p.exp('to'); t2 = mod.ptype(p)
        if t.k in ('vec', 'a', 's'):
            if op == 'freeze':
                def ex(m, R, S): R[dst] = a(m, R)
                return ('i', ex)
            if op == 'bitcast':
                def ex(m, R, S):
                    v = a(m, R)
                    if v is UNDEF: v = m.aggundef(t) if t.k == 'vec' else v
                    bs = []
                    for x in (v if t.k == 'vec' else [v]):
                        w = t.e if t.k == 'vec' else t
                        bs += [None] * w.size if x is UNDEF else m.split(x, width(w))
                    if t2.k == 'vec':
                        k = t2.e.size; R[dst] = tuple(m.joinb(bs[i * k:(i + 1) * k], width(t2.e)) for i in range(t2.n))
                    else: R[dst] = m.joinb(bs, width(t2))
                return ('i', ex)
            if t.k == 'vec' and op in ('zext', 'sext', 'trunc'):
                n, n2 = t.e.n, t2.e.n
                def one(m, v):
                    if v is UNDEF: v = m.undef(n)
                    if type(v) is int: return (sgn(v, n) if op == 'sext' else v) & M(n2)
                    if op == 'trunc': return simp(z3.Extract(n2 - 1, 0, v))
                    return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(n2 - n, bv(v, n)))
                def ex(m, R, S):
                    v = a(m, R); v = m.aggundef(t) if v is UNDEF else v
                    R[dst] = tuple(one(m, x) for x in v)
                return ('i', ex)
            raise IRError('aggregate cast')
        n, n2 = width(t), width(t2)
        def ex(m, R, S):
            v = a(m, R)
            if v is UNDEF: v = m.undef(n) if t.k != 'f' else 0.0
            if op in ('uitofp', 'sitofp'):
                v = m.conc(v); R[dst] = float(v if op == 'uitofp' else sgn(v, n)); return
            if op in ('fptoui', 'fptosi'): R[dst] = int(v) & M(n2); return
            if op in ('fpext', 'fptrunc'): R[dst] = v; return
            if op in ('freeze',): R[dst] = v; return
            if op == 'bitcast':
                if t.k != t2.k: raise IRError('bitcast')
                R[dst] = v; return
            if type(v) is int:
                R[dst] = (sgn(v, n) if op == 'sext' else v) & M(n2); return
            if op in ('zext', 'ptrtoint', 'inttoptr') and n2 > n: R[dst] = bv(v, n2) if n == 1 else simp(z3.ZeroExt(n2 - n, v))
            elif op == 'sext': R[dst] = z3.If(v, z3.BitVecVal(M(n2), n2), z3.BitVecVal(0, n2)) if n == 1 else simp(z3.SignExt(n2 - n, v))
            elif n2 < n: R[dst] = simp(z3.Extract(n2 - 1, 0, v)) if n2 > 1 else simp(z3.Extract(0, 0, v) == 1)
            else: R[dst] = v
        return ('i', ex)
    if op == 'select':
        while p.pk() in WORDATTR: p.nx()
        tc, c = tyv(mod, regs, p); p.exp(','); t, a = tyv(mod, regs, p); p.exp(','); _, b = tyv(mod, regs, p)
        n = width(t) if t.k in 'ip' else 0
        def ex(m, R, S):
            x = c(m, R)
            if type(x) is int: R[dst] = a(m, R) if x else b(m, R); return
            va, vb = a(m, R), b(m, R)
            if n == 0 or va is UNDEF or vb is UNDEF: R[dst] = va if m.branch(x) else vb; return
            if n == 1: R[dst] = simp(z3.If(asbool(x), asbool(va), asbool(vb)))
            elif t.k == 'p': R[dst] = va if m.branch(x) else vb
            else: R[dst] = simp(z3.If(asbool(x), bv(va, n), bv(vb, n)))
        return ('i', ex)
    if op == 'phi':
        while p.pk() in WORDATTR: p.nx()
        t = mod.ptype(p); g = {}
        while True:
            p.exp('['); v = operand(mod, regs, p, t); p.exp(','); l = p.nx(); p.exp(']'); g[l] = v
            if not p.acc(','): break
        return ('phi', g)
    if op == 'br':
        if p.pk() == 'label': p.nx(); return ('term', ('br', p.nx(), lab))
        t = mod.ptype(p); c = operand(mod, regs, p, t); p.exp(','); p.nx(); a = p.nx(); p.exp(','); p.nx(); b = p.nx()
        return ('term', ('cbr', c, a, b, lab))
    if op == 'switch':
        t, v = tyv(mod, regs, p); p.exp(','); p.nx(); d = p.nx(); p.exp('['); cs = {}
        while not p.acc(']'):
            tt = mod.ptype(p); k = int(p.nx()) & M(tt.n); p.exp(','); p.nx(); cs[k] = p.nx()
        return ('term', ('switch', v, t.n, cs, d, lab))
    if op == 'ret':
        t = mod.ptype(p)
        if t.k == 'v': return ('term', ('ret', None))
        return ('term', ('ret', operand(mod, regs, p, t)))
    if op == 'unreachable': return ('term', ('unreachable',))
    if op == 'extractvalue':
        t, a = tyv(mod, regs, p); ix = []
        while p.acc(','): ix.append(int(p.nx()))
        def ex(m, R, S):
            v = a(m, R)
            for i in ix: v = v[i]
            R[dst] = v
        return ('i', ex)
    if op == 'insertvalue':
        t, a = tyv(mod, regs, p); p.exp(','); _, b = tyv(mod, regs, p); ix = []
        while p.acc(','): ix.append(int(p.nx()))
        def ins(v, ix, x):
            if not ix: return x
            l = list(v); l[ix[0]] = ins(l[ix[0]], ix[1:], x); return tuple(l)
        def ex(m, R, S):
            v = a(m, R)
            if v is UNDEF: v = m.aggundef(t)
            R[dst] = ins(v, ix, b(m, R))
        return ('i', ex)
    if op == 'extractelement':
        t, a = tyv(mod, regs, p); p.exp(','); _, i = tyv(mod, regs, p)
        def ex(m, R, S): R[dst] = a(m, R)[m.conc(i(m, R))]
        return ('i', ex)
    if op == 'insertelement':
        t, a = tyv(mod, regs, p); p.exp(','); _, b = tyv(mod, regs, p); p.exp(','); _, i = tyv(mod, regs, p)
        def ex(m, R, S):
            v = a(m, R); v = list(m.aggundef(t) if v is UNDEF else v); v[m.conc(i(m, R))] = b(m, R); R[dst] = tuple(v)
        return ('i', ex)
    if op == 'shufflevector':
        t, a = tyv(mod, regs, p); p.exp(','); _, b = tyv(mod, regs, p); p.exp(','); mt = mod.ptype(p); mk = mod.const(p, mt)
        def ex(m, R, S):
            va, vb = a(m, R), b(m, R)
            va = m.aggundef(t) if va is UNDEF else va; vb = m.aggundef(t) if vb is UNDEF else vb
            l = tuple(va) + tuple(vb); k = m.cval(mk, mt)
            R[dst] = tuple(UNDEF if i is UNDEF else l[i] for i in k)
        return ('i', ex)
    if op == 'fence': return None
    if op == 'atomicrmw':
        p.acc('volatile'); o = p.nx(); _, a = tyv(mod, regs, p); p.exp(','); t, v = tyv(mod, regs, p)
        def ex(m, R, S):
            x = m.load(t, a(m, R)); y = v(m, R); n = width(t)
            R[dst] = x
            m.store(t, y if o == 'xchg' else binop(o, x, y, n, m), a(m, R))
        return ('i', ex)
    if op == 'cmpxchg':
        p.acc('weak'); p.acc('volatile'); _, a = tyv(mod, regs, p); p.exp(','); t, e = tyv(mod, regs, p); p.exp(','); _, v = tyv(mod, regs, p)
        def ex(m, R, S):
            x = m.load(t, a(m, R)); c = m.branch(icmp('eq', x, e(m, R), width(t)))
            if c: m.store(t, v(m, R), a(m, R))
            R[dst] = (x, int(c))
        return ('i', ex)
    if op == 'call':
        while True:
            mod.skipattrs(p)
            if p.pk() == 'cc': p.nx(); p.nx(); continue
            break
        rt = mod.ptype(p)
        if p.pk() == '(':  # full function type
            mod.parens(p)
        if p.pk() == 'asm':
            return None if dst is None else ('i', lambda m, R, S: R.__setitem__(dst, m.undef(width(rt))))
        cal = p.nx(); name = None; cg = None
        if cal[0] == '@': name = cal[1:].strip('"')
        else:
            i = regs[cal]; cg = lambda m, R: R[i]
        if name and (name.startswith('llvm.dbg') or name.startswith('llvm.experimental.noalias')): return None
        p.exp('('); args = []
        while not p.acc(')'):
            t = mod.ptype(p)
            if t is META: # skip metadata
                d = 0
                while not (d == 0 and p.pk() in (',', ')')):
                    v = p.nx(); d += v == '('; d -= v == ')'
                p.acc(','); args.append(lambda m, R: 0); continue
            mod.skipattrs(p); args.append(operand(mod, regs, p, t)); p.acc(',')
        if name:
            def ex(m, R, S):
                r = m.call(name, [g(m, R) for g in args])
                if dst is not None: R[dst] = r
        else:
            def ex(m, R, S):
                a = m.conc(cg(m, R)); fn = m.fby.get(a)
                if fn is None: m.viol('call through an invalid pointer')
                r = m.call(fn, [g(m, R) for g in args])
                if dst is not None: R[dst] = r
        return ('i', ex)
    raise IRError('instr ' + op)

# ---------------------------------------------------------------- externals
def _memcpy(m, a):
    n = m.conc(a[2])
    if n: m.wrbytes(a[0], m.rdbytes(a[1], n))
    return a[0]
def _memset(m, a):
    n = m.conc(a[2]); v = a[1]
    if type(v) is int: b = v & 255
    else: b = (simp(z3.Extract(7, 0, v)) if v.size() > 8 else v, 0, 1); b = b[0] if type(b[0]) is int else b
    if n: m.wrbytes(a[0], [b] * n)
    return a[0]
def _byte(m, b):
    if b is None: return bv(m.undef(8), 8)
    if type(b) is int: return z3.BitVecVal(b, 8)
    if b[2] == 1: return b[0]
    return z3.Extract(b[1] * 8 + 7, b[1] * 8, b[0])
def _memcmp(m, a):
    n = m.conc(a[2]); x = m.rdbytes(a[0], n); y = m.rdbytes(a[1], n)
    r = None; pre = []
    # result: an arbitrary value of the right sign, as the C standard allows
    for i in range(n):
        if type(x[i]) is int and type(y[i]) is int:
            if x[i] == y[i]: continue
            d = 1 if x[i] > y[i] else M(32)
            if not pre: return d
            pre.append((None, d)); break
        pre.append((x[i], y[i]))
    if not pre: return 0
    e = z3.BitVecVal(0, 32)
    for u, v in reversed(pre):
        if u is None: e = z3.BitVecVal(v, 32)
        else:
            bu, bw = _byte(m, u), _byte(m, v)
            e = z3.If(bu == bw, e, z3.If(z3.ULT(bu, bw), z3.BitVecVal(M(32), 32), z3.BitVecVal(1, 32)))
    return simp(e)
def _strlen(m, a):
    p = m.conc(a[0]); n = 0
    while m.conc(m.loadint(p + n, 8)): n += 1
    return n
def _malloc(m, a):
    n = m.conc(a[0]); return m.alloc(n, 'heap').base
def _calloc(m, a):
    n = m.conc(a[0]) * m.conc(a[1]); o = m.alloc(n, 'heap'); o.data = [0] * n; return o.base
def _free(m, a):
    p = m.conc(a[0])
    if p == 0: return None
    o = m.objs.get(p)
    if o is None or o.kind != 'heap': m.viol('free of an invalid pointer')
    if not o.live: m.viol('double free')
    m.kill(o)
def _posix_memalign(m, a):
    o = m.alloc(m.conc(a[2]), 'heap'); m.store(PTR, o.base, a[0]); return 0
def _exit(m, a): raise PathEnd('exit')
def _ret0(m, a): return 0
def _arg0(m, a): return a[0] if a else 0
def _none(m, a): return None
def _symint(n):
    def h(m, a):
        name = m.cstr(a[0]); v = z3.BitVec(f'{name}!{len(m.syms)}', n) if n > 1 else z3.Bool(f'{name}!{len(m.syms)}')
        m.syms.append((name, v)); return v
    return h
def _cstr(self, a):
    a = self.conc(a); s = ''
    while True:
        b = self.loadint(a, 8)
        if type(b) is not int or b == 0: return s
        s += chr(b); a += 1
Machine.cstr = _cstr
def _assume(m, a):
    c = a[0]
    if type(c) is int:
        if not c & 1: raise Infeasible()
        return
    c = asbool(c) if not isinstance(c, z3.BitVecRef) else c != 0
    m.assume(c)
    r = m.chk()
    if r == z3.unsat: raise Infeasible()
    if r == z3.unknown: raise Undecided('assume')
def _assert(m, a):
    c = a[0]
    m.require(c if type(c) is int or isinstance(c, z3.BoolRef) else c != 0, m.cstr(a[1]))
def _minmax(f, sg):
    def h(m, a):
        x, y = a[0], a[1]
        w = h.n
        c = icmp(('s' if sg else 'u') + ('lt' if f == 'min' else 'gt'), x, y, w)
        if type(c) is int: return x if c else y
        return simp(z3.If(c, bv(x, w), bv(y, w)))
    return h

EXT = {
 'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset, 'memcmp': _memcmp, 'bcmp': _memcmp, 'strlen': _strlen,
 'malloc': _malloc, '_Znwm': _malloc, '_Znam': _malloc, 'calloc': _calloc, 'free': _free, '_ZdlPv': _free, '_ZdaPv': _free,
 '_ZdlPvm': _free, '_ZdaPvm': _free, '_ZnwmSt11align_val_t': _malloc, '_ZdlPvmSt11align_val_t': _free, '_ZnwmRKSt9nothrow_t': _malloc,
 '_ZdlPvSt11align_val_t': _free, 'posix_memalign': _posix_memalign,
 'exit': _exit, '_exit': _exit, 'abort': _exit, '__assert_fail': _exit, '_ZSt9terminatev': _exit, '__cxa_pure_virtual': _exit,
 '__cxa_atexit': _ret0, '__cxa_guard_acquire': None, '__cxa_guard_release': _none, '__cxa_guard_abort': _none,
 'printf': _ret0, 'fprintf': _ret0, 'puts': _ret0, 'putchar': _ret0, 'perror': _none, 'fflush': _ret0, 'fwrite': _ret0, 'fputc': _ret0,
 'sym_u64': _symint(64), 'sym_u32': _symint(32), 'sym_u8': _symint(8), 'sym_bool': _symint(1), 'sym_assume': _assume, 'sym_assert': _assert,
 'sym_stop': _exit, 'sym_crc32c': lambda m, a: simp(z3.Extract(31, 0, bv(_crc(m.conc(a[2]))(m, [a[0], simp(z3.Extract(m.conc(a[2]) - 1, 0, bv(a[1], 64)))]), m.conc(a[2]) if m.conc(a[2]) == 64 else 32))),
 'sym_clmul': lambda m, a: _clmul(m, [(a[0], 0), (a[1], 0), 0])[m.conc(a[2])], '__errno_location': None, '_ZNSt8ios_base4InitC1Ev': _none, '_ZNSt8ios_base4InitD1Ev': _none,
}
def _errno(m, a):
    if not hasattr(m, 'errno_addr'):
        o = m.alloc(4, 'global'); o.data = [0] * 4; m.errno_addr = o.base
    return m.errno_addr
EXT['__errno_location'] = _errno
def _guard(m, a):
    p = m.conc(a[0])
    if m.loadint(p, 8): return 0
    m.wrbytes(p, [1]); return 1
EXT['__cxa_guard_acquire'] = _guard
PAT = [
 (re.compile(r'^llvm\.(lifetime|assume|dbg|experimental|invariant|prefetch|stack|donothing|sideeffect|var)'), _none),
 (re.compile(r'^llvm\.mem(cpy|move)'), _memcpy), (re.compile(r'^llvm\.memset'), _memset),
 (re.compile(r'^llvm\.(trap|debugtrap)'), _exit),
 (re.compile(r'^llvm\.expect'), lambda m, a: a[0]), (re.compile(r'^llvm\.is\.constant'), _ret0), (re.compile(r'^llvm\.launder|^llvm\.strip'), lambda m, a: a[0]),
 (re.compile(r'^llvm\.objectsize'), lambda m, a: M(64)),
 (re.compile(r'^_ZSt\d+__throw_'), _exit),
 # stream output: no effect on the property
 (re.compile(r'^_ZN?K?So|^_ZStls|^_ZSt4endl|^_ZSt5flush|^_ZSt16__ostream|^_ZNSo|^_ZNSt9basic_iosI|^_ZNKSt9basic_iosI|^_ZNSt13basic_ostreamI|^_ZSt4ends|^_ZSt8setprec|^_ZSt4setw'), _arg0),
]
def _ovf(kind, sg, n):
    def h(m, a):
        x, y = a[0], a[1]
        if type(x) is int and type(y) is int:
            u, v = (sgn(x, n), sgn(y, n)) if sg else (x, y)
            r = {'add': u + v, 'sub': u - v, 'mul': u * v}[kind]
            ok = (-(1 << n - 1) <= r < (1 << n - 1)) if sg else 0 <= r < (1 << n)
            return (r & M(n), int(not ok))
        X, Y = bv(x, n), bv(y, n); E = z3.SignExt if sg else z3.ZeroExt
        k = n if kind == 'mul' else 1
        w = {'add': E(k, X) + E(k, Y), 'sub': E(k, X) - E(k, Y), 'mul': E(k, X) * E(k, Y)}[kind]
        r = z3.Extract(n - 1, 0, w)
        return (simp(r), simp(E(k, r) != w))
    return h
def _crc(n):
    def h(m, a):
        w = 64 if n == 64 else 32
        c, v = bv(a[0], w), bv(a[1], n)
        r = z3.Extract(31, 0, c) if w == 64 else c
        for i in range(n):
            b = z3.Extract(0, 0, r) ^ z3.Extract(i, i, v)
            r = z3.LShR(r, 1) ^ z3.If(b == 1, z3.BitVecVal(0x82F63B78, 32), z3.BitVecVal(0, 32))
        return simp(z3.ZeroExt(32, r) if n == 64 else r)
    return h
def _clmul(m, a):
    k = m.conc(a[2]); x = bv(a[0][k & 1], 64); y = bv(a[1][k >> 4 & 1], 64)
    r = z3.BitVecVal(0, 128)
    for i in range(64):
        r = r ^ z3.If(z3.Extract(i, i, x) == 1, z3.ZeroExt(64, y) << i, z3.BitVecVal(0, 128))
    return (simp(z3.Extract(63, 0, r)), simp(z3.Extract(127, 64, r)))
def intrinsic(name):
    mm = re.match(r'^llvm\.x86\.sse42\.crc32\.\d+\.(\d+)$', name)
    if mm: return _crc(int(mm.group(1)))
    if name == 'llvm.x86.pclmulqdq': return _clmul
    mm = re.match(r'^llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$', name)
    if mm: return _ovf(mm.group(2), mm.group(1) == 's', int(mm.group(3)))
    mm = re.match(r'^llvm\.([us])(min|max)\.i(\d+)$', name)
    if mm:
        sg, f, n = mm.group(1), mm.group(2), int(mm.group(3))
        def h(m, a):
            c = icmp(sg + ('lt' if f == 'min' else 'gt'), a[0], a[1], n)
            if type(c) is int: return a[0] if c else a[1]
            return simp(z3.If(c, bv(a[0], n), bv(a[1], n)))
        return h
    mm = re.match(r'^llvm\.abs\.i(\d+)$', name)
    if mm:
        n = int(mm.group(1))
        def h(m, a):
            v = a[0]
            if type(v) is int: return abs(sgn(v, n)) & M(n)
            return simp(z3.If(v < 0, -v, v))
        return h
    mm = re.match(r'^llvm\.usub\.sat\.i(\d+)$', name)
    if mm:
        n = int(mm.group(1))
        def h(m, a):
            c = icmp('ugt', a[0], a[1], n); d = binop('sub', a[0], a[1], n, m)
            if type(c) is int: return d if c else 0
            return simp(z3.If(c, bv(d, n), z3.BitVecVal(0, n)))
        return h
    mm = re.match(r'^llvm\.fsh([lr])\.i(\d+)$', name)
    if mm:
        left, n = mm.group(1) == 'l', int(mm.group(2))
        def h(m, a):
            k = m.conc(a[2]) % n
            if not left: k = (n - k) % n if k else 0
            if k == 0: return a[0] if left else a[1]
            return binop('or', binop('shl', a[0], k, n, m), binop('lshr', a[1], n - k, n, m), n, m)
        return h
    mm = re.match(r'^llvm\.bswap\.i(\d+)$', name)
    if mm:
        n = int(mm.group(1))
        def h(m, a):
            if type(a[0]) is int: return int.from_bytes(a[0].to_bytes(n // 8, 'little'), 'big')
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(n // 8)]))
        return h
    mm = re.match(r'^llvm\.(cttz|ctlz|ctpop)\.i(\d+)$', name)
    if mm:
        k, n = mm.group(1), int(mm.group(2))
        def h(m, a):
            v = m.conc(a[0])
            if k == 'ctpop': return bin(v).count('1')
            if v == 0: return n
            return (v & -v).bit_length() - 1 if k == 'cttz' else n - v.bit_length()
        return h

class Engine:
    def __init__(self, mod, entry, overrides=None, maxpaths=20000, maxsteps=3_000_000, maxconc=64, qtimeout=60000, deadline=None, ctors=True, stop_first=True):
        self.mod = mod; self.entry = entry; self.work = []; self.maxpaths = maxpaths; self.maxsteps = maxsteps; self.maxconc = maxconc
        self.qtimeout = qtimeout; self.queries = 0; self.stime = 0.0; self.asserts = {}; self.called = {}; self.logic = False
        self.over = dict(EXT); self.over.update(overrides or {}); self.hc = {}; self.deadline = deadline; self.ctors = ctors
        self.paths = 0; self.steps = 0; self.violations = []; self.undec = []; self.stop_first = stop_first; self.ended = {}
    def lookup(self, name):
        try: return self.hc[name]
        except KeyError: pass
        h = self.over.get(name)
        if name in self.mod.funcs and h is not None and name not in ('_ZNSt8ios_base4InitC1Ev',): h = None; self.hc[name] = None; return None
        if h is None:
            for r, g in PAT:
                if r.match(name): h = g; break
        if h is None and name.startswith('llvm.'): h = intrinsic(name)
        self.hc[name] = h
        return h
    def run(self):
        self.work = [[]]
        seen = set()
        while self.work:
            if self.paths >= self.maxpaths: self.undec.append('path limit'); break
            if self.deadline and time.time() > self.deadline: self.undec.append('time limit'); break
            pre = self.work.pop(); self.paths += 1
            m = Machine(self.mod, pre, self)
            try:
                if self.ctors:
                    for c in self.mod.ctors:
                        if c in self.mod.funcs: m.call(c, [])
                m.call(self.entry, [])
                k = 'complete'
            except Infeasible: k = 'infeasible'
            except PathEnd as e: k = 'stopped'
            except Violation as v:
                k = 'violation'
                if not any(x[0] == v.what for x in self.violations): self.violations.append((v.what, v.model))
                if self.stop_first: self.steps += m.steps; break
            except Undecided as u:
                k = 'undecided'; self.undec.append(str(u))
            self.ended[k] = self.ended.get(k, 0) + 1
            self.steps += m.steps
        return self
