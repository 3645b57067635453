"""Symbolic values for the bounded evaluators: a hash-consed term graph (Boolean and bounded-integer terms with intervals) and
structured values guarded by it.

  Tm              Boolean term, or integer term carrying an interval [lo, hi] (None = unbounded on that side)
  int             integer constant
  Bv(w, t)        bit-vector of width w
  D(con, fs)      constructor application
  SeqV(es)        sequence of known length
  SetV / MapV / MSetV   finite collections: member -> guard; members active together are pairwise different
  LSet            set given by a membership predicate and a list of candidate members
  LMap            map given by domain predicate, value function and candidate keys
  FnV             closure
  Ref             heap reference (0 is null)
  U([(g, v)])     one of several values of different shape, guards exclusive and exhaustive
  ARB             unspecified value
"""
import itertools, os, subprocess, sys, time

sys.setrecursionlimit(400000)


class Unsupported(Exception):
    pass


class Blowup(Exception):
    pass


# ------------------------------------------------------------------ terms
class Tm:
    __slots__ = ("op", "a", "id", "lo", "hi", "neg", "isb", "__weakref__")

    def __repr__(self):
        if self is T: return "T"
        if self is F: return "F"
        return f"<{self.op}{self.id}>"

    def __bool__(self):
        raise TypeError("symbolic Boolean used as a Python condition")


_ids = [0]
_tt = {}


def _new(op, a, isb, lo=None, hi=None):
    t = Tm()
    _ids[0] += 1
    t.op, t.a, t.id, t.isb, t.lo, t.hi, t.neg = op, a, _ids[0], isb, lo, hi, None
    return t


def _negof(t):
    n = _new("not", (t,), True)
    t.neg, n.neg = n, t
    return t


T = _negof(_new("true", (), True))
F = T.neg
F.op = "false"
_nv = [0]


def bvar(name):
    return _negof(_new("bvar", (name,), True))


def ivar(name, lo, hi):
    if lo is not None and lo == hi: return lo
    return _new("ivar", (name,), False, lo, hi)


def ik(x):
    """identity key of a term or value"""
    return (0, x) if type(x) is int else (1, x.id)


def Not(x):
    return x.neg


_and = {}


def And(a, b):
    if a is b or b is T: return a
    if a is T: return b
    if a is F or b is F or a is b.neg: return F
    if a.id > b.id: a, b = b, a
    k = (a.id, b.id)
    r = _and.get(k)
    if r is not None: return r
    for x, y in ((a, b), (b, a)):
        if y.op == "and":
            p, q = y.a
            if p is x or q is x: return y
            if p is x.neg or q is x.neg: return F
        elif y.neg.op == "and":
            p, q = y.neg.a
            if p is x:
                r = And(x, q.neg); _and[k] = r; return r
            if q is x:
                r = And(x, p.neg); _and[k] = r; return r
            if p is x.neg or q is x.neg: return x
    r = _negof(_new("and", (a, b), True))
    _and[k] = r
    return r


def Or(a, b):
    return And(a.neg, b.neg).neg


def AndL(xs):
    r = T
    for x in xs:
        r = And(r, x)
        if r is F: return F
    return r


def OrL(xs):
    r = F
    for x in xs:
        r = Or(r, x)
        if r is T: return T
    return r


def Implies(a, b):
    return And(a, b.neg).neg


def IteB(c, a, b):
    if c is T: return a
    if c is F: return b
    if a is b: return a
    if a is T: return Or(c, b)
    if a is F: return And(c.neg, b)
    if b is T: return Or(c.neg, a)
    if b is F: return And(c, a)
    return Or(And(c, a), And(c.neg, b))


def Iff(a, b):
    if a is b: return T
    if a is b.neg: return F
    return IteB(a, b, b.neg)


def BC(x):
    return T if x else F


# integers: linear combinations are canonical: op "lin", a = (const, ((term, coef), ...)) sorted by term id
def _lin(x):
    if type(x) is int: return x, ()
    if x.op == "lin": return x.a
    return 0, ((x, 1),)


def rng(x):
    return (x, x) if type(x) is int else (x.lo, x.hi)


def mklin(c, ts):
    if not ts: return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1: return ts[0][0]
    k = ("lin", c, tuple((t.id, q) for t, q in ts))
    r = _tt.get(k)
    if r is None:
        lo = hi = c
        for t, q in ts:
            l, h = (t.lo, t.hi) if q > 0 else (t.hi, t.lo)
            lo = None if lo is None or l is None else lo + q * l
            hi = None if hi is None or h is None else hi + q * h
        r = _tt[k] = _new("lin", (c, ts), False, lo, hi)
    return r


def addc(x, y, q=1):
    """x + q*y"""
    if type(x) is int and type(y) is int: return x + q * y
    c1, t1 = _lin(x)
    c2, t2 = _lin(y)
    if not t2: return mklin(c1 + q * c2, t1)
    d = {t.id: (t, k) for t, k in t1}
    for t, k in t2:
        o = d.get(t.id)
        k2 = q * k + (o[1] if o else 0)
        if k2: d[t.id] = (t, k2)
        elif o: del d[t.id]
    return mklin(c1 + q * c2, tuple(v for _, v in sorted(d.items())))


def iadd(x, y): return addc(x, y, 1)
def isub(x, y): return addc(x, y, -1)


def imul(x, y):
    if type(x) is int and type(y) is int: return x * y
    if type(y) is int: x, y = y, x
    if type(x) is int:
        if x == 0: return 0
        c, ts = _lin(y)
        return mklin(c * x, tuple((t, k * x) for t, k in ts))
    for a, b in ((x, y), (y, x)):          # product with a small choice of constants
        vs = leaves(a)
        if vs is not None and len(vs) <= 8:
            r = imul(vs[-1], b)
            for v in vs[:-1]: r = ite(ieq(a, v), imul(v, b), r)
            return r
    if x.id > y.id: x, y = y, x
    k = ("mul", x.id, y.id)
    r = _tt.get(k)
    if r is None:
        lo = hi = None
        if None not in (x.lo, x.hi, y.lo, y.hi):
            ps = [p * q for p in (x.lo, x.hi) for q in (y.lo, y.hi)]
            lo, hi = min(ps), max(ps)
        elif x.lo is not None and y.lo is not None and x.lo >= 0 and y.lo >= 0:
            lo = x.lo * y.lo
        r = _tt[k] = _new("mul", (x, y), False, lo, hi)
    return r


def ediv(a, b):
    """Euclidean division, as in Dafny and Verus"""
    q = abs(a) // abs(b) if a >= 0 else -(-(a) // abs(b)) - (1 if (-a) % abs(b) else 0)
    return q if b > 0 else -q


def emod(a, b): return a % abs(b)


def idiv(x, y):
    if y is ARB or x is ARB: return ARB
    if type(y) is int:
        if y == 0: return ARB
        if type(x) is int: return ediv(x, y)
        if y == 1: return x
        if y < 0: return ineg(idiv(x, -y)) if 'ineg' in globals() else isub(0, idiv(x, -y))
        if y > 0:
            l, h = rng(x)
            if l is not None and h is not None and l // y == h // y: return l // y
            c, ts = _lin(x)
            # (y*a + c) / y
            if all(k % y == 0 for _, k in ts): return mklin(c // y, tuple((t, k // y) for t, k in ts))
            mult = tuple((t, k // y) for t, k in ts if k % y == 0)
            if mult:
                rest = mklin(c, tuple((t, k) for t, k in ts if k % y))
                return iadd(mklin(0, mult), idiv(rest, y))
            k = ("div", x.id, y)
            r = _tt.get(k)
            if r is None:
                r = _tt[k] = _new("div", (x, y), False, None if l is None else l // y, None if h is None else h // y)
            return r
    vs = leaves(y)
    if vs is not None and len(vs) <= 70:
        r = None
        for v in vs:
            if v == 0: continue
            d = idiv(x, v)
            r = d if r is None else ite(ieq(y, v), d, r)
        return ARB if r is None else r
    l, h = rng(x)
    yl = y.lo
    k = ("div", ik(x), y.id)
    r = _tt.get(k)
    if r is None:
        lo, hi = (0, h) if l is not None and l >= 0 and yl is not None and yl >= 1 else (None, None)
        r = _tt[k] = _new("div", (x, y), False, lo, hi)
    return r


def imod(x, y):
    if y is ARB or x is ARB: return ARB
    if type(y) is int:
        if y == 0: return ARB
        y = abs(y)
        if type(x) is int: return x % y
        if y == 1: return 0
        l, h = rng(x)
        if l is not None and h is not None and l // y == h // y: return isub(x, y * (l // y))
        c, ts = _lin(x)
        if c % y != c or any(k % y != k for _, k in ts):
            return imod(mklin(c % y, tuple((t, k % y) for t, k in ts if k % y)), y)
        k = ("mod", x.id, y)
        r = _tt.get(k)
        if r is None: r = _tt[k] = _new("mod", (x, y), False, 0, y - 1)
        return r
    vs = leaves(y)
    if vs is not None and len(vs) <= 70:
        r = None
        for v in vs:
            if v == 0: continue
            d = imod(x, v)
            r = d if r is None else ite(ieq(y, v), d, r)
        return ARB if r is None else r
    k = ("mod", ik(x), y.id)
    r = _tt.get(k)
    if r is None: r = _tt[k] = _new("mod", (x, y), False, 0, None if y.hi is None else max(abs(y.hi), abs(y.lo or 0)) - 1)
    return r


def ite(c, a, b):
    """integer choice"""
    if c is T: return a
    if c is F: return b
    if a is b or (type(a) is int and type(b) is int and a == b): return a
    if a is ARB: return b
    if b is ARB: return a
    if type(a) is not int and a.op == "ite":
        if a.a[0] is c: a = a.a[1]
        elif a.a[0] is c.neg: a = a.a[2]
    if type(b) is not int and b.op == "ite":
        if b.a[0] is c: b = b.a[2]
        elif b.a[0] is c.neg: b = b.a[1]
    if a is b or (type(a) is int and type(b) is int and a == b): return a
    if c.op in ("not",): c, a, b = c.neg, b, a
    k = ("ite", c.id, ik(a), ik(b))
    r = _tt.get(k)
    if r is None:
        l1, h1 = rng(a)
        l2, h2 = rng(b)
        r = _tt[k] = _new("ite", (c, a, b), False, None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
    return r


_leaf = {}


def leaves(x, lim=300):
    """Possible values of x when x is built from constants by choice, or has a small interval; else None."""
    if type(x) is int: return (x,)
    r = _leaf.get(x.id, 0)
    if r != 0: return r
    r = None
    if x.op == "ite":
        p, q = leaves(x.a[1]), leaves(x.a[2])
        if p is not None and q is not None:
            r = tuple(sorted(set(p) | set(q)))
    elif x.op == "lin":
        acc = {x.a[0]}
        for t, k in x.a[1]:
            vs = leaves(t)
            if vs is None: acc = None; break
            acc = {s + k * v for s in acc for v in vs}
            if len(acc) > lim: acc = None; break
        if acc is not None: r = tuple(sorted(acc))
    elif x.op in ("div", "mod") and type(x.a[1]) is int:
        vs = leaves(x.a[0])
        if vs is not None: r = tuple(sorted({(ediv if x.op == "div" else emod)(v, x.a[1]) for v in vs}))
    if (r is None or len(r) > lim) and x.lo is not None and x.hi is not None and x.hi - x.lo < lim:
        r = tuple(range(x.lo, x.hi + 1))
    if r is not None and len(r) > lim: r = None
    if r is not None and x.lo is not None: r = tuple(v for v in r if v >= x.lo and (x.hi is None or v <= x.hi))
    _leaf[x.id] = r
    return r


from math import gcd
_atom = {}


def ge0(d):
    """d >= 0"""
    if type(d) is int: return BC(d >= 0)
    if d.lo is not None and d.lo >= 0: return T
    if d.hi is not None and d.hi < 0: return F
    r = _atom.get(("ge", d.id))
    if r is not None: return r
    c, ts = _lin(d)
    if len(ts) == 1 and ts[0][0].op == "ite":
        t, k = ts[0]
        g, p, q = t.a
        pp, qq = mklinx(c, p, k), mklinx(c, q, k)
        x, y = ge0(pp), ge0(qq)
        if x in (T, F) or y in (T, F) or type(p) is int or type(q) is int:
            r = IteB(g, x, y)
    if r is None:
        g = 0
        for _, k in ts: g = gcd(g, k)
        if g > 1:
            r = ge0(mklin(c // g, tuple((t, k // g) for t, k in ts)))
        else:
            n = mklin(-c - 1, tuple((t, -k) for t, k in ts))      # not (d >= 0)  <=>  -d-1 >= 0
            o = _atom.get(("ge", n.id))
            if o is not None: r = o.neg
            else: r = _negof(_new("ge0", (d,), True))
    _atom[("ge", d.id)] = r
    return r


def mklinx(c, x, k):
    return addc(c, x, k)


def ile(a, b): return ge0(isub(b, a))
def ilt(a, b): return ge0(addc(isub(b, a), 1, -1))


def ieq(a, b):
    if type(a) is int and type(b) is int: return BC(a == b)
    d = isub(a, b)
    if type(d) is int: return BC(d == 0)
    if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0): return F
    r = _atom.get(("eq", d.id))
    if r is not None: return r
    c, ts = _lin(d)
    if ts[0][1] < 0:
        r = ieq(mklin(-c, tuple((t, -k) for t, k in ts)), 0)
    else:
        g = 0
        for _, k in ts: g = gcd(g, k)
        if c % g: r = F
        elif g > 1: r = ieq(mklin(c // g, tuple((t, k // g) for t, k in ts)), 0)
        elif len(ts) == 1:
            t, k = ts[0]            # t == -c
            if t.op == "ite":
                r = IteB(t.a[0], ieq(t.a[1], -c), ieq(t.a[2], -c))
            else:
                vs = leaves(t)
                if vs is not None and -c not in vs: r = F
                elif t.lo == -c and t.hi is not None and t.hi - t.lo == 1: r = ge0(addc(t.lo, t, -1))
                elif t.hi == -c and t.lo is not None and t.hi - t.lo == 1: r = ge0(addc(t, -t.hi))
    if r is None: r = _negof(_new("eq0", (d,), True))
    _atom[("eq", d.id)] = r
    return r


# bit-vectors, kept as non-negative integers below 2^w with dedicated operators
def bvop(op, w, x, y=None):
    """and or xor shl lshr on integers seen as w-bit words; result in [0, 2^w)"""
    m = (1 << w) - 1
    if type(x) is int and (y is None or type(y) is int):
        if op == "and": return x & y
        if op == "or": return x | y
        if op == "xor": return x ^ y
        if op == "shl": return (x << y) & m if y < w else 0
        if op == "lshr": return x >> y
        if op == "not": return ~x & m
    if op == "not": return isub(m, x)
    if op == "shl" and type(y) is int: return imod(imul(x, 1 << y), 1 << w) if y < w else 0
    if op == "lshr" and type(y) is int: return idiv(x, 1 << y)
    if op == "and" :
        for p, q in ((x, y), (y, x)):
            if type(p) is int:
                if p == 0: return 0
                if p == m: return q
                if p & (p + 1) == 0: return imod(q, p + 1)
    if op == "or" or op == "xor":
        if type(x) is int and x == 0: return y
        if type(y) is int and y == 0: return x
    if op in ("and", "or", "xor") and ik(x) > ik(y): x, y = y, x
    k = ("bv" + op, w, ik(x), ik(y))
    r = _tt.get(k)
    if r is None:
        hi = m
        if op == "and":
            hs = [h for h in (rng(x)[1], rng(y)[1]) if h is not None]
            hi = min([m] + hs)
        elif op == "lshr":
            hi = min(m, rng(x)[1] if rng(x)[1] is not None else m)
        elif op in ("or", "xor"):
            hs = [rng(x)[1], rng(y)[1]]
            if None not in hs: hi = min(m, (1 << max(h.bit_length() for h in hs)) - 1)
        r = _tt[k] = _new("bv" + op, (w, x, y), False, 0, hi)
    return r


# ------------------------------------------------------------------ values
class V:
    __slots__ = ("id", "conc")

    def _init(self, conc):
        _ids[0] += 1
        self.id = _ids[0]
        self.conc = conc


_tab = {}


def isconc(v):
    t = type(v)
    if t is int or t is str: return True
    if t is Tm: return v is T or v is F
    return v.conc


class D(V):
    __slots__ = ("con", "fs")

    def __repr__(self):
        n = self.con.rsplit(".", 1)[-1].rsplit("::", 1)[-1]
        return n + ("(" + ", ".join(map(repr, self.fs)) + ")" if self.fs else "")


class SeqV(V):
    __slots__ = ("es",)

    def __repr__(self): return f"{list(self.es)}"


class SetV(V):
    __slots__ = ("m", "inf")

    def __repr__(self): return "{" + ", ".join(f"{k}" + ("" if g is T else f"?{g}") for k, g in self.m.items()) + "}"


class MapV(V):
    __slots__ = ("m",)

    def __repr__(self): return "map[" + ", ".join(f"{k} := {v}" + ("" if g is T else f"?{g}") for k, (g, v) in self.m.items()) + "]"


class MSetV(V):
    __slots__ = ("m",)

    def __repr__(self): return "multiset{" + ", ".join(f"{k}x{n}" for k, n in self.m.items()) + "}"


class U(V):
    __slots__ = ("alts",)

    def __repr__(self): return "U(" + " | ".join(f"{g}:{v}" for g, v in self.alts) + ")"


class LSet(V):
    __slots__ = ("pred", "univ")


class LMap(V):
    __slots__ = ("dom", "get", "univ")


class FnV(V):
    __slots__ = ("fn", "nm")


class Ref(V):
    __slots__ = ("n", "cls")

    def __repr__(self): return f"ref{self.n}"


class Bv(V):
    __slots__ = ("w", "t")

    def __repr__(self): return f"{self.t}bv{self.w}"


class ArbV(V):
    __slots__ = ()

    def __repr__(self): return "ARB"


ARB = ArbV()
ARB._init(True)


def _ck(v):
    return v if type(v) is int else ("s", v) if type(v) is str else (v.id,)


def mkD(con, fs=()):
    fs = tuple(fs)
    k = ("D", con, tuple([_ck(f) for f in fs]))
    r = _tab.get(k)
    if r is None:
        r = D(); r._init(all([isconc(f) for f in fs])); r.con, r.fs = con, fs
        _tab[k] = r
    return r


def mkSeq(es):
    es = tuple(es)
    k = ("S", tuple([_ck(f) for f in es]))
    r = _tab.get(k)
    if r is None:
        r = SeqV(); r._init(all([isconc(f) for f in es])); r.es = es
        _tab[k] = r
    return r


def mkBv(w, t):
    k = ("B", w, _ck(t))
    r = _tab.get(k)
    if r is None:
        r = Bv(); r._init(type(t) is int); r.w, r.t = w, t
        _tab[k] = r
    return r


_refs = {}


def mkRef(n, cls=None):
    r = _refs.get(n)
    if r is None:
        r = Ref(); r._init(True); r.n, r.cls = n, cls
        _refs[n] = r
    return r


def okey(k):
    t = type(k)
    if t is int: return (0, k)
    if t is Tm: return (1, 0 if k is F else 1 if k is T else k.id)
    if t is str: return (2, k)
    return (3, k.id)


def mkSet(m):
    m = {k: g for k, g in sorted(m.items(), key=lambda kv: okey(kv[0])) if g is not F}
    k = ("T", tuple([(_ck(x), g.id) for x, g in m.items()]))
    r = _tab.get(k)
    if r is None:
        r = SetV(); r._init(all([g is T and isconc(x) for x, g in m.items()])); r.m = m
        _tab[k] = r
    return r


def mkMap(m):
    m = {k: gv for k, gv in sorted(m.items(), key=lambda kv: okey(kv[0])) if gv[0] is not F}
    k = ("M", tuple([(_ck(x), g.id, _ck(v)) for x, (g, v) in m.items()]))
    r = _tab.get(k)
    if r is None:
        r = MapV(); r._init(all([g is T and isconc(v) and isconc(x) for x, (g, v) in m.items()])); r.m = m
        _tab[k] = r
    return r


def mkMSet(m):
    m = {k: n for k, n in sorted(m.items(), key=lambda kv: okey(kv[0])) if not (type(n) is int and n == 0)}
    k = ("X", tuple([(_ck(x), _ck(n)) for x, n in m.items()]))
    r = _tab.get(k)
    if r is None:
        r = MSetV(); r._init(all([type(n) is int and isconc(x) for x, n in m.items()])); r.m = m
        _tab[k] = r
    return r


LIMIT = 6000


def mkU(alts):
    alts = [(g, v) for g, v in alts if g is not F]
    if not alts: return ARB
    if len(alts) == 1: return alts[0][1]
    if len(alts) > LIMIT: raise Blowup(f"{len(alts)} alternatives")
    k = ("U", tuple([(g.id, _ck(v)) for g, v in alts]))
    r = _tab.get(k)
    if r is None:
        r = U(); r._init(False); r.alts = tuple(alts)
        _tab[k] = r
    return r


def mkFn(fn, nm=""):
    r = FnV(); r._init(False); r.fn, r.nm = fn, nm
    return r


def mkL(pred, univ):
    r = LSet(); r._init(False); r.pred, r.univ = pred, univ
    return r


def mkLM(dom, get, univ):
    r = LMap(); r._init(False); r.dom, r.get, r.univ = dom, get, univ
    return r


def shape(v):
    t = type(v)
    if t is int: return "#int"
    if t is Tm: return "#bool" if v.isb else "#int"
    if t is D: return v.con
    if t is SeqV: return ("#", len(v.es))
    if t is str: return ("s", v)
    if t in (SetV, LSet): return "#set"
    if t in (MapV, LMap): return "#map"
    if t is MSetV: return "#mset"
    if t is Bv: return ("#bv", v.w)
    if t is FnV: return "#fn"
    if t is Ref: return ("#ref", v.n)
    return ("o", v.id)


def alts(v):
    return v.alts if type(v) is U else ((T, v),)


_mrg = {}


def isI(v):
    return type(v) is int or (type(v) is Tm and not v.isb)


def merge(c, x, y):
    if c is T or x is y: return x
    if c is F: return y
    if x is ARB: return y
    if y is ARB: return x
    if isI(x) and isI(y): return ite(c, x, y)
    tx, ty = type(x), type(y)
    if tx is Tm and ty is Tm and x.isb and y.isb: return IteB(c, x, y)
    k = (c.id, _ck(x), _ck(y))
    r = _mrg.get(k)
    if r is not None: return r[0]
    r = _merge(c, x, y, tx, ty)
    _mrg[k] = (r, x, y)
    return r


def _uni(a, b):
    return list(a) + [k for k in b if k not in a]


def _merge(c, x, y, tx, ty):
    if tx is D and ty is D and x.con == y.con:
        return mkD(x.con, [merge(c, p, q) for p, q in zip(x.fs, y.fs)])
    if tx is SeqV and ty is SeqV and len(x.es) == len(y.es):
        return mkSeq([merge(c, p, q) for p, q in zip(x.es, y.es)])
    if tx is Bv and ty is Bv and x.w == y.w: return mkBv(x.w, ite(c, x.t, y.t))
    if tx is SetV and ty is SetV:
        return mkSet({k: IteB(c, x.m.get(k, F), y.m.get(k, F)) for k in _uni(x.m, y.m)})
    if tx is MapV and ty is MapV:
        m = {}
        for k in _uni(x.m, y.m):
            a, b = x.m.get(k), y.m.get(k)
            if a is None: m[k] = (And(c.neg, b[0]), b[1])
            elif b is None: m[k] = (And(c, a[0]), a[1])
            else: m[k] = (IteB(c, a[0], b[0]), merge(c, a[1], b[1]))
        return mkMap(m)
    if tx is MSetV and ty is MSetV:
        return mkMSet({k: ite(c, x.m.get(k, 0), y.m.get(k, 0)) for k in _uni(x.m, y.m)})
    if tx in (SetV, LSet) and ty in (SetV, LSet):
        return mkL(lambda e: IteB(c, set_has(x, e), set_has(y, e)), lambda: dedup(list(set_univ(x)) + list(set_univ(y))))
    if tx in (MapV, LMap) and ty in (MapV, LMap):
        return mkLM(lambda e: IteB(c, map_has(x, e), map_has(y, e)), lambda e: merge(c, map_get(x, e), map_get(y, e)),
                    lambda: dedup(list(map_univ(x)) + list(map_univ(y))))
    if tx is FnV and ty is FnV:
        return mkFn(lambda *a: merge(c, x.fn(*a), y.fn(*a)))
    out, order = {}, []
    for g, v in alts(x):
        s = shape(v); out[s] = [And(c, g), v]; order.append(s)
    for g, v in alts(y):
        s = shape(v)
        if s in out:
            o = out[s]
            o[1] = merge(c, o[1], v)
            o[0] = Or(o[0], And(c.neg, g))
        else:
            out[s] = [And(c.neg, g), v]; order.append(s)
    return mkU([(out[s][0], out[s][1]) for s in order])


def dedup(vs):
    return list({_ck(v): v for v in vs}.values())


def merge_list(gvs):
    gvs = [(g, v) for g, v in gvs if g is not F]
    if not gvs: return ARB
    if len(gvs) == 1: return gvs[0][1]
    if all(type(v) is Tm and v.isb for _, v in gvs):
        return OrL([And(g, v) for g, v in gvs])
    r = gvs[-1][1]
    for g, v in reversed(gvs[:-1]): r = merge(g, v, r)
    return r


def lift(f, *vs):
    """f over the non-union alternatives of vs."""
    if not any(type(v) is U for v in vs): return f(*vs)
    out = []
    for combo in itertools.product(*[alts(v) for v in vs]):
        g = AndL([c[0] for c in combo])
        if g is F: continue
        out.append((g, f(*[c[1] for c in combo])))
        if len(out) > LIMIT: raise Blowup("lift")
    return merge_list(out)


_eqm = {}


def eq(x, y):
    if x is y: return T
    if isI(x) and isI(y): return ieq(x, y)
    tx, ty = type(x), type(y)
    if tx is Tm and ty is Tm and x.isb and y.isb: return Iff(x, y)
    if x is ARB or y is ARB: return arb_bool()
    k = (_ck(x), _ck(y))
    r = _eqm.get(k)
    if r is None:
        r = _eq(x, y, tx, ty)
        _eqm[k] = (r, x, y)
        return r
    return r[0]


def _eq(x, y, tx, ty):
    if tx is D and ty is D:
        if x.con != y.con: return F
        r = T
        for a, b in zip(x.fs, y.fs):
            r = And(r, eq(a, b))
            if r is F: return F
        return r
    if tx is SeqV and ty is SeqV:
        if len(x.es) != len(y.es): return F
        return AndL([eq(a, b) for a, b in zip(x.es, y.es)])
    if tx is Bv and ty is Bv: return ieq(x.t, y.t)
    if tx in (SetV, LSet) and ty in (SetV, LSet):
        if tx is SetV and ty is SetV and all(map(isconc, x.m)) and all(map(isconc, y.m)):
            return AndL([Iff(x.m.get(k, F), y.m.get(k, F)) for k in _uni(x.m, y.m)])
        us = dedup(list(set_univ(x)) + list(set_univ(y)))
        return AndL([Iff(set_has(x, e), set_has(y, e)) for e in us])
    if tx in (MapV, LMap) and ty in (MapV, LMap):
        r = T
        us = dedup(list(map_univ(x)) + list(map_univ(y)))
        for k in us:
            a, b = map_has(x, k), map_has(y, k)
            # for symbolic keys the listing may repeat a key; harmless
            r = And(r, Iff(a, b))
            if r is F: return F
            ab = And(a, b)
            if ab is not F: r = And(r, Implies(ab, eq(map_get(x, k), map_get(y, k))))
        return r
    if tx is MSetV and ty is MSetV:
        if all(map(isconc, x.m)) and all(map(isconc, y.m)):
            return AndL([ieq(x.m.get(k, 0), y.m.get(k, 0)) for k in _uni(x.m, y.m)])
        return AndL([ieq(ms_count(x, k), ms_count(y, k)) for k in _uni(x.m, y.m)])
    if tx is U or ty is U:
        return OrL([AndL([g, h, eq(v, w)]) for g, v in alts(x) for h, w in alts(y) if And(g, h) is not F and compat(v, w)])
    if tx is str and ty is str: return BC(x == y)
    if tx is Ref and ty is Ref: return BC(x.n == y.n)
    if tx is FnV and ty is FnV:
        raise Unsupported("equality of functions")
    if tx is Bv and isI(y): return ieq(x.t, y)
    if ty is Bv and isI(x): return ieq(x, y.t)
    if tx is ty: return F
    if Tm in (tx, ty) or D in (tx, ty): return F
    raise Unsupported(f"equality of {tx.__name__} and {ty.__name__}")


def compat(v, w):
    if v is ARB or w is ARB: return True
    return shape(v) == shape(w)


_arb = [0]


def arb_bool():
    _arb[0] += 1
    return bvar(f"arb{_arb[0]}")


_case = {}
CASES = 3000


def cases(v, lim=None):
    """(guard, concrete value) pairs covering v."""
    lim = lim or CASES
    if isconc(v): return ((T, v),)
    if type(v) is Tm:
        if v.isb: return ((v, T), (v.neg, F))
    r = _case.get(v.id)
    if r is not None: return r[0]
    out = []
    t = type(v)
    if t is Tm:
        vs = leaves(v, 300)
        if vs is None or len(vs) > lim: raise Blowup("cases of an integer")
        out = [(ieq(v, k), k) for k in vs]
        out = [(g, k) for g, k in out if g is not F]
    elif t is U:
        for g, a in v.alts:
            for h, c in cases(a, lim):
                k = And(g, h)
                if k is not F: out.append((k, c))
    elif t in (D, SeqV):
        fs = v.fs if t is D else v.es
        acc = [(T, ())]
        for f in fs:
            cs = cases(f, lim)
            acc = [(gg, tt + (c,)) for g, tt in acc for h, c in cs for gg in (And(g, h),) if gg is not F]
            if len(acc) > lim: raise Blowup("cases")
        out = [(g, mkD(v.con, tt) if t is D else mkSeq(tt)) for g, tt in acc]
    elif t is Bv:
        out = [(g, mkBv(v.w, c)) for g, c in cases(v.t, lim)]
    elif t is SetV:
        acc = [(T, ())]
        for k, g in v.m.items():
            if not isconc(k):
                return cases(set_concrete(v), lim)
            acc = [(gg, tt + x) for h, tt in acc for q, x in ((g, (k,)), (g.neg, ())) for gg in (And(h, q),) if gg is not F]
            if len(acc) > lim: raise Blowup("cases")
        out = [(g, mkSet({k: T for k in tt})) for g, tt in acc]
    elif t is MapV:
        acc = [(T, ())]
        for k, (g, w) in v.m.items():
            if not isconc(k): raise Blowup("cases of a map with symbolic keys")
            opts = [(g.neg, ())] + [(And(g, h), ((k, c),)) for h, c in cases(w, lim)]
            acc = [(gg, tt + x) for h, tt in acc for q, x in opts for gg in (And(h, q),) if gg is not F]
            if len(acc) > lim: raise Blowup("cases")
        out = [(g, mkMap({k: (T, c) for k, c in tt})) for g, tt in acc]
    elif t is LSet:
        return cases(set_mat(v), lim)
    elif t is LMap:
        return cases(map_mat(v), lim)
    elif t is MSetV:
        acc = [(T, ())]
        for k, n in v.m.items():
            if not isconc(k): raise Blowup("cases of a multiset with symbolic members")
            acc = [(gg, tt + ((k, c),)) for h, tt in acc for q, c in cases(n, lim) for gg in (And(h, q),) if gg is not F]
            if len(acc) > lim: raise Blowup("cases")
        out = [(g, mkMSet(dict(tt))) for g, tt in acc]
    elif t is FnV: return ((T, v),)
    else:
        raise Unsupported(f"cases of {t.__name__}")
    d, order = {}, []
    for g, c in out:
        k = _ck(c)
        if k in d: d[k] = (Or(d[k][0], g), c)
        else: d[k] = (g, c); order.append(k)
    r = tuple(d[k] for k in order)
    _case[v.id] = (r, v)
    return r


ENUM = 24


def few(v):
    """Case list of v if short, else None."""
    if isconc(v): return ((T, v),)
    t = type(v)
    if t is Tm and not v.isb:
        vs = leaves(v)
        if vs is None or len(vs) > ENUM: return None
    try:
        cs = cases(v, ENUM)
    except (Blowup, Unsupported):
        return None
    return cs if len(cs) <= ENUM else None


# ------------------------------------------------------------------ collections
def set_has(s, e):
    if type(s) is U: return OrL([And(g, set_has(v, e)) for g, v in s.alts])
    if s is ARB: return arb_bool()
    if type(s) is LSet: return s.pred(e)
    if type(s) is MSetV: return ge0(addc(ms_count(s, e), 1, -1))
    if isconc(e):
        r = s.m.get(e, F)
        if all(map(isconc, s.m)): return r
    return OrL([And(g, eq(k, e)) for k, g in s.m.items()])


def set_univ(s):
    if type(s) is LSet: return s.univ()
    if s is ARB: return []
    if type(s) is U: return dedup([e for _, v in s.alts for e in set_univ(v)])
    return list(s.m)


def set_from(ges):
    """Set of guarded, possibly symbolic and possibly equal members."""
    m = {}
    sym = []
    for g, e in ges:
        if g is F: continue
        cs = few(e)
        if cs is None: sym.append((g, e))
        else:
            for h, c in cs:
                q = And(g, h)
                if q is not F: m[c] = Or(m.get(c, F), q)
    for g, e in sym:
        if e in m and not isconc(e):
            m[e] = Or(m[e], g) if True else m[e]
            # keep distinctness against the others
            for k in list(m):
                if k is not e:
                    q = eq(k, e)
                    if q is not F: m[k] = And(m[k], And(g, q).neg)
            continue
        for k in list(m):
            q = eq(k, e)
            if q is not F: m[k] = And(m[k], And(g, q).neg)
        m[e] = g
    return mkSet(m)


def set_concrete(s):
    m = {}
    for k, g in s.m.items():
        for h, c in cases(k): m[c] = Or(m.get(c, F), And(g, h))
    return mkSet(m)


def set_mat(s):
    if type(s) is SetV: return s
    if type(s) is U: return merge_list([(g, set_mat(v)) for g, v in s.alts])
    if s is ARB: return mkSet({})
    us = dedup(s.univ())
    if all(map(isconc, us)): return mkSet({e: s.pred(e) for e in us})
    return set_from([(s.pred(e), e) for e in us])


def _allconc(*ss):
    return all(isconc(k) for s in ss for k in s.m)


def set_bin(x, y, op):
    """op in + * -"""
    if type(x) is U or type(y) is U: return lift(lambda a, b: set_bin(a, b, op), x, y)
    if x is ARB: x = mkSet({})
    if y is ARB: y = mkSet({})
    f = {"+": Or, "*": And, "-": lambda a, b: And(a, b.neg)}[op]
    if type(x) is SetV and type(y) is SetV:
        if _allconc(x, y):
            return mkSet({k: f(x.m.get(k, F), y.m.get(k, F)) for k in _uni(x.m, y.m)})
        if op == "+": return set_from([(g, k) for k, g in x.m.items()] + [(g, k) for k, g in y.m.items()])
        if op == "*": return mkSet({k: And(g, set_has(y, k)) for k, g in x.m.items()})
        return mkSet({k: And(g, set_has(y, k).neg) for k, g in x.m.items()})
    if type(x) is SetV and op in ("*", "-"):
        return mkSet({k: f(g, set_has(y, k)) for k, g in x.m.items()})
    if type(y) is SetV and op == "*":
        return mkSet({k: And(g, set_has(x, k)) for k, g in y.m.items()})
    return mkL(lambda e: f(set_has(x, e), set_has(y, e)), lambda: dedup(list(set_univ(x)) + list(set_univ(y))))


def set_subset(x, y):
    if x is ARB or y is ARB: return arb_bool()
    if type(x) is U: return lift(lambda a: set_subset(a, y), x)
    return AndL([Implies(set_has(x, k), set_has(y, k)) for k in set_univ(x)])


def set_len(s):
    s = set_mat(s)
    if type(s) is U: return lift(set_len, s)
    return count(s.m.values())


def count(gs):
    acc = 0
    for g in gs:
        acc = iadd(acc, ite(g, 1, 0))
    return acc


def map_has(m, k):
    if type(m) is U: return OrL([And(g, map_has(v, k)) for g, v in m.alts])
    if m is ARB: return arb_bool()
    if type(m) is LMap: return m.dom(k)
    if isconc(k) and _allconc(m):
        e = m.m.get(k)
        return F if e is None else e[0]
    return OrL([And(eq(kk, k), g) for kk, (g, v) in m.m.items()])


def map_get(m, k):
    if type(m) is U: return merge_list([(g, map_get(v, k)) for g, v in m.alts])
    if m is ARB: return ARB
    if type(m) is LMap: return m.get(k)
    if isconc(k) and _allconc(m):
        e = m.m.get(k)
        return ARB if e is None else e[1]
    out = []
    for kk, (g, v) in m.m.items():
        h = And(eq(kk, k), g)
        if h is not F: out.append((h, v))
    if not out: return ARB
    r = out[-1][1]
    for g, v in reversed(out[:-1]): r = merge(g, v, r)
    return r


def map_univ(m):
    if type(m) is LMap: return m.univ()
    if m is ARB: return []
    if type(m) is U: return dedup([e for _, v in m.alts for e in map_univ(v)])
    return list(m.m)


def map_mat(m):
    if type(m) is MapV: return m
    if m is ARB: return mkMap({})
    if type(m) is U: return merge_list([(g, map_mat(v)) for g, v in m.alts])
    return map_from([(m.dom(k), k, m.get(k)) for k in dedup(m.univ())])


def map_from(gkv):
    """Map of guarded entries; a later entry wins."""
    d = {}
    for g, k, v in gkv:
        if g is F: continue
        cs = few(k)
        if cs is not None and all(map(isconc, d)):
            for h, c in cs:
                q = And(g, h)
                if q is F: continue
                o = d.get(c)
                d[c] = (q, v) if o is None else (Or(o[0], q), merge(q, v, o[1]))
        else:
            for c in list(d):
                if c is k: continue
                q = eq(c, k)
                if q is not F: d[c] = (And(d[c][0], And(g, q).neg), d[c][1])
            o = d.get(k)
            d[k] = (g, v) if o is None else (Or(o[0], g), merge(g, v, o[1]))
    return mkMap(d)


def map_insert(m, k, v):
    if type(m) is U: return merge_list([(g, map_insert(w, k, v)) for g, w in m.alts])
    if m is ARB: m = mkMap({})
    if type(m) is LMap:
        return mkLM(lambda e: Or(eq(e, k), m.dom(e)), lambda e: merge(eq(e, k), v, m.get(e)), lambda: dedup(m.univ() + [k]))
    if isconc(k) and _allconc(m):
        d = dict(m.m)
        d[k] = (T, v)
        return mkMap(d)
    return map_from([(g, kk, vv) for kk, (g, vv) in m.m.items()] + [(T, k, v)])


def map_dom(m):
    if type(m) is U: return merge_list([(g, map_dom(w)) for g, w in m.alts])
    if m is ARB: return ARB
    if type(m) is LMap: return mkL(m.dom, m.univ)
    return mkSet({k: g for k, (g, _) in m.m.items()})


def map_values(m):
    m = map_mat(m)
    if type(m) is U: return merge_list([(g, map_values(w)) for g, w in m.alts])
    return set_from([(g, v) for g, v in m.m.values()])


def map_items(m, mkpair):
    m = map_mat(m)
    if type(m) is U: return merge_list([(g, map_items(w, mkpair)) for g, w in m.alts])
    return mkSet({mkpair(k, v): g for k, (g, v) in m.m.items()})


def map_restrict(m, f):
    """Keep key k under guard f(k)."""
    if type(m) is U: return merge_list([(g, map_restrict(w, f)) for g, w in m.alts])
    if m is ARB: return m
    if type(m) is LMap: return mkLM(lambda k: And(m.dom(k), f(k)), m.get, m.univ)
    return mkMap({k: (And(g, f(k)), v) for k, (g, v) in m.m.items()})


def map_union(a, b):
    if type(a) is U or type(b) is U:
        return lift(map_union, a, b)
    if a is ARB: a = mkMap({})
    if b is ARB: b = mkMap({})
    if type(a) is LMap or type(b) is LMap:
        return mkLM(lambda k: Or(map_has(a, k), map_has(b, k)), lambda k: merge(map_has(b, k), map_get(b, k), map_get(a, k)),
                    lambda: dedup(list(map_univ(a)) + list(map_univ(b))))
    return map_from([(g, k, v) for k, (g, v) in a.m.items()] + [(g, k, v) for k, (g, v) in b.m.items()])


def map_sub(a, b):
    if type(a) is U or type(b) is U: return lift(map_sub, a, b)
    if a is ARB or b is ARB: return arb_bool()
    r = T
    for k in map_univ(a):
        h = map_has(a, k)
        r = And(r, Implies(h, And(map_has(b, k), eq(map_get(a, k), map_get(b, k)))))
    return r


# multisets: member -> count; members with symbolic identity are concretised
def ms_from(gns):
    d = {}
    for k, n in gns:
        cs = few(k)
        if cs is None: cs = ((T, k),)  # kept symbolic
        for h, c in cs:
            d[c] = iadd(d.get(c, 0), ite(h, n, 0))
    return mkMSet(d)


def ms_count(s, k):
    if s is ARB: return ARB
    if type(s) is U: return merge_list([(g, ms_count(v, k)) for g, v in s.alts])
    if isconc(k) and all(map(isconc, s.m)): return s.m.get(k, 0)
    r = 0
    for kk, n in s.m.items(): r = iadd(r, ite(eq(kk, k), n, 0))
    return r


def imin(a, b): return ite(ile(a, b), a, b)
def imax(a, b): return ite(ile(a, b), b, a)


def ms_bin(x, y, op):
    if type(x) is U or type(y) is U: return lift(lambda a, b: ms_bin(a, b, op), x, y)
    if x is ARB or y is ARB: return ARB
    if op != "+" and not (all(map(isconc, x.m)) and all(map(isconc, y.m))): raise Blowup("difference of multisets with symbolic members")
    f = {"+": iadd, "-": lambda a, b: imax(isub(a, b), 0), "*": imin}[op]
    return mkMSet({k: f(x.m.get(k, 0), y.m.get(k, 0)) for k in _uni(x.m, y.m)})


def ms_sub(x, y):
    if x is ARB or y is ARB: return arb_bool()
    if type(x) is U or type(y) is U: return lift(ms_sub, x, y)
    return AndL([ile(ms_count(x, k), ms_count(y, k)) for k in x.m])


def ms_len(x):
    if x is ARB: return ARB
    if type(x) is U: return lift(ms_len, x)
    r = 0
    for n in x.m.values(): r = iadd(r, n)
    return r


# sequences
def seq_len(s):
    if s is ARB: return ARB
    if type(s) is U: return merge_list([(g, seq_len(v)) for g, v in s.alts])
    return len(s.es)


def seq_get(s, i):
    if s is ARB or i is ARB: return ARB
    if type(s) is U:
        return merge_list([(g, seq_get(v, i)) for g, v in s.alts])
    n = len(s.es)
    if type(i) is int: return s.es[i] if 0 <= i < n else ARB
    r = ARB
    lo = max(0, i.lo if i.lo is not None else 0)
    hi = min(n - 1, i.hi if i.hi is not None else n - 1)
    for k in range(hi, lo - 1, -1):
        g = ieq(i, k)
        if g is F: continue
        r = s.es[k] if r is ARB else merge(g, s.es[k], r)
    return r


def seq_update(s, i, v):
    if s is ARB: return ARB
    if type(s) is U: return merge_list([(g, seq_update(w, i, v)) for g, w in s.alts])
    if i is ARB: return s
    n = len(s.es)
    if type(i) is int:
        return mkSeq(s.es[:i] + (v,) + s.es[i + 1:]) if 0 <= i < n else s
    return mkSeq([merge(ieq(i, k), v, e) for k, e in enumerate(s.es)])


def ints_within(x, lo, hi):
    """(guard, k) for the values of x between lo and hi"""
    if type(x) is int: return [(T, x)] if lo <= x <= hi else []
    out = []
    for k in range(max(lo, x.lo if x.lo is not None else lo), min(hi, x.hi if x.hi is not None else hi) + 1):
        g = ieq(x, k)
        if g is not F: out.append((g, k))
    return out


def seq_sub(s, a, b):
    """s[a..b]; a or b None for the ends"""
    if s is ARB: return ARB
    if type(s) is U: return merge_list([(g, seq_sub(v, a, b)) for g, v in s.alts])
    n = len(s.es)
    if a is None: a = 0
    if b is None: b = n
    if a is ARB or b is ARB: return ARB
    if type(a) is int and type(b) is int:
        return mkSeq(s.es[a:b]) if 0 <= a <= b <= n else ARB
    out = []
    for g, i in ints_within(a, 0, n):
        for h, j in ints_within(b, i, n):
            q = And(g, h)
            if q is not F: out.append((q, mkSeq(s.es[i:j])))
    return merge_list(out)


def seq_cat(a, b):
    def f(a, b):
        if a is ARB: return b
        if b is ARB: return a
        return mkSeq(a.es + b.es)
    return lift(f, a, b)


def seq_has(s, x):
    if s is ARB: return arb_bool()
    if type(s) is U: return OrL([And(g, seq_has(v, x)) for g, v in s.alts])
    return OrL([eq(e, x) for e in s.es])


def field(v, con, i):
    t = type(v)
    if t is D: return v.fs[i] if con is None or v.con == con else ARB
    if t is U: return merge_list([(g, w.fs[i]) for g, w in v.alts if type(w) is D and (con is None or w.con == con)])
    if v is ARB: return ARB
    raise Unsupported(f"field of {t.__name__}")


def is_con(v, con):
    if type(v) is D: return BC(v.con == con)
    if type(v) is U: return OrL([g for g, w in v.alts if type(w) is D and w.con == con])
    if v is ARB: return arb_bool()
    raise Unsupported(f"variant test of {type(v).__name__}")


# ------------------------------------------------------------------ fresh values
def choice(name, n):
    if n == 1: return [T]
    x = ivar(name, 0, n - 1)
    INPUTS.append((name, x))
    gs = [ieq(x, k) for k in range(n)]
    return gs


INPUTS = []


def fresh_int(name, lo, hi):
    x = ivar(name, lo, hi)
    INPUTS.append((name, x))
    return x


def fresh_bool(name):
    x = bvar(name)
    INPUTS.append((name, x))
    return x


def fresh_of(name, vals):
    """One of the given concrete values."""
    vals = list(vals)
    if all(type(v) is int for v in vals) and vals == list(range(vals[0], vals[0] + len(vals))):
        return fresh_int(name, vals[0], vals[-1]) if len(vals) > 1 else vals[0]
    return merge_list(list(zip(choice(name, len(vals)), vals)))


def fresh_seq(name, maxlen, mk, minlen=0):
    es = [mk(f"{name}[{i}]") for i in range(maxlen)]
    gs = choice(name + ".len", maxlen - minlen + 1)
    return mkU([(g, mkSeq(es[:minlen + i])) for i, g in enumerate(gs)])


# ------------------------------------------------------------------ solving
STATS = {"queries": 0, "solver_s": 0.0, "terms": 0, "sat": 0, "unsat": 0, "trivial": 0}
Z3 = "/usr/local/bin/z3-new" if os.path.exists("/usr/local/bin/z3-new") else "z3-new"


def reset_stats():
    for k in STATS: STATS[k] = 0


def walk(roots):
    """Terms below roots, children first."""
    seen, order, stack = set(), [], [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if type(t) is int: continue
        if done:
            order.append(t); continue
        if t.isb and t.op in ("not", "false") and t is not F: t = t.neg
        if t.id in seen: continue
        seen.add(t.id)
        stack.append((t, True))
        if t.op == "lin":
            for x, _ in t.a[1]:
                if x.id not in seen: stack.append((x, False))
        elif t.op in ("ivar", "bvar", "true", "false"): pass
        else:
            for x in t.a:
                if type(x) is Tm: stack.append((x, False))
    return order


def nat_bits(lo, hi):
    return max((-lo - 1).bit_length() if lo < 0 else 0, hi.bit_length() if hi > 0 else 0) + 1


def smt(roots, mode):
    """SMT-LIB text; mode 'int' uses integers (bit operations through conversions), 'bv' one signed width wide enough for every term."""
    order = walk(roots)
    out = []
    nm = {}
    if mode == "bv":
        W = 2
        for t in order:
            if not t.isb:
                if t.lo is None or t.hi is None: raise Unsupported("unbounded term")
                W = max(W, nat_bits(t.lo, t.hi))
                if t.op == "lin":
                    c, ts = t.a
                    lo = hi = c
                    W = max(W, nat_bits(min(c, 0), max(c, 0)))
                    for x, k in ts:
                        a, b = sorted((k * x.lo, k * x.hi))
                        lo += min(a, 0); hi += max(b, 0)
                        W = max(W, nat_bits(min(a, k), max(b, k)), nat_bits(min(lo, c), max(hi, c)))
                elif t.op[:2] == "bv": W = max(W, t.a[0] + 1)
                for x in t.a:
                    if type(x) is int and t.op != "ite" and t.op[:2] != "bv": W = max(W, nat_bits(min(x, 0), max(x, 0)))
                    if type(x) is int: W = max(W, nat_bits(min(x, 0), max(x, 0)))
        W += 1
        if W > 200: raise Unsupported("too wide")

    def num(k):
        if mode == "bv": return f"(_ bv{k % (1 << W)} {W})"
        return str(k) if k >= 0 else f"(- {-k})"

    def r(x):
        if type(x) is int: return num(x)
        if x is T: return "true"
        if x is F: return "false"
        if x.isb and x.op == "not": return f"(not {nm[x.neg.id]})"
        return nm[x.id]
    srt = "Int" if mode == "int" else f"(_ BitVec {W})" if mode == "bv" else None
    A = ("+", "*", ">=") if mode == "int" else ("bvadd", "bvmul", "bvsge")
    names = []
    for t in order:
        if t.op in ("true", "false"):
            nm[t.id] = t.op; continue
        n = nm[t.id] = f"t{t.id}"
        if t.op == "bvar":
            out.append(f"(declare-const {n} Bool)"); names.append(t); continue
        if t.op == "ivar":
            out.append(f"(declare-const {n} {srt})"); names.append(t)
            if t.lo is not None: out.append(f"(assert ({A[2]} {n} {num(t.lo)}))")
            if t.hi is not None: out.append(f"(assert ({A[2]} {num(t.hi)} {n}))")
            continue
        o = t.op
        if o == "and": e = f"(and {r(t.a[0])} {r(t.a[1])})"
        elif o == "lin":
            c, ts = t.a
            parts = ([num(c)] if c else []) + [r(x) if k == 1 else f"({A[1]} {num(k)} {r(x)})" for x, k in ts]
            e = parts[0] if len(parts) == 1 else f"({A[0]} " + " ".join(parts) + ")"
        elif o == "mul": e = f"({A[1]} {r(t.a[0])} {r(t.a[1])})"
        elif o == "ite": e = f"(ite {r(t.a[0])} {r(t.a[1])} {r(t.a[2])})"
        elif o == "ge0": e = f"({A[2]} {r(t.a[0])} {num(0)})"
        elif o == "eq0": e = f"(= {r(t.a[0])} {num(0)})"
        elif o in ("div", "mod"):
            x, y = t.a
            if mode == "int": e = f"({o} {r(x)} {r(y)})"
            else:
                yl = y if type(y) is int else y.lo
                if rng(x)[0] >= 0 and yl > 0:
                    e = f"({'bvudiv' if o == 'div' else 'bvurem'} {r(x)} {r(y)})"
                elif type(y) is int and y > 0:
                    m = f"(bvsmod {r(x)} {r(y)})"
                    e = m if o == "mod" else f"(bvsdiv (bvsub {r(x)} {m}) {r(y)})"
                else: raise Unsupported("signed division")
        elif o[:2] == "bv":
            w, x, y = t.a
            if mode == "bv":
                f = {"bvshl": "bvshl"}.get(o, o)
                if o == "bvshl":
                    e = f"((_ zero_extend {W - w}) ((_ extract {w - 1} 0) (bvshl {r(x)} {r(y)})))"
                else: e = f"({f} {r(x)} {r(y)})"
            else:
                c = lambda z: f"((_ int2bv {w}) {r(z)})"
                e = f"(bv2nat ({o} {c(x)} {c(y)}))"
        else: raise Unsupported("term " + o)
        out.append(f"(define-fun {n} () {'Bool' if t.isb else srt} {e})")
    for x in roots: out.append(f"(assert {r(x)})")
    return out, names


class Timeout(Exception):
    pass


def parse_model(txt, names):
    import re
    m = {}
    byn = {f"t{t.id}": t for t in names}
    for a, v in re.findall(r"\((t\d+)\s+(\([^()]*\)|\([^()]*\([^()]*\)[^()]*\)|[^\s()]+)\)", txt):
        t = byn.get(a)
        if t is None: continue
        if v in ("true", "false"): m[t.id] = v == "true"
        elif v.startswith("#x"):
            n = int(v[2:], 16); w = 4 * (len(v) - 2)
            m[t.id] = n - (1 << w) if n >> (w - 1) else n
        elif v.startswith("#b"):
            n = int(v[2:], 2); w = len(v) - 2
            m[t.id] = n - (1 << w) if n >> (w - 1) else n
        elif v.startswith("(-"): m[t.id] = -int(v[2:-1].strip())
        else: m[t.id] = int(v)
    return m


MODES = ("int", "bv")


def solve(roots, timeout=120, modes=None):
    """None if the conjunction of roots is unsatisfiable, else a model {term id: value}.  Encodings race when both apply."""
    STATS["queries"] += 1
    flat, seen = [], set()
    st = list(roots)
    while st:
        x = st.pop()
        if x is F: STATS["trivial"] += 1; return None
        if x is T or x.id in seen: continue
        seen.add(x.id)
        if x.op == "and": st.extend(x.a)
        else: flat.append(x)
    for x in flat:
        if x.neg.id in seen: STATS["trivial"] += 1; return None
    if not flat: return {}
    t0 = time.time()
    procs = []
    err = None
    for mode in modes or MODES:
        try:
            txt, names = smt(flat, mode)
        except Unsupported as e:
            err = e; continue
        STATS["terms"] += len(txt)
        q = ("(set-logic QF_BV)\n" if mode == "bv" else "") + "\n".join(txt) + "\n(check-sat)\n" + ("(get-value (" + " ".join(f"t{t.id}" for t in names) + "))\n" if names else "")
        p = subprocess.Popen([Z3, "-in", f"-T:{int(timeout)}", "-memory:6000"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        procs.append((p, names, q))
    if not procs: raise err or Unsupported("no encoding")
    import threading, queue
    qu = queue.Queue()

    def run(p, names, q):
        try:
            o, _ = p.communicate(q)
        except Exception as e:
            o = "error " + repr(e)
        qu.put((o, names))
    for a in procs: threading.Thread(target=run, args=a, daemon=True).start()
    res, last = None, ""
    for _ in procs:
        o, names = qu.get()
        if o.startswith("unsat"): res = ("unsat", None); break
        if o.startswith("sat"): res = ("sat", parse_model(o, names)); break
        last = o
    for p, _, _ in procs:
        if p.poll() is None: p.kill()
    STATS["solver_s"] += time.time() - t0
    if res is None: raise Timeout(last.strip()[:200])
    STATS[res[0]] += 1
    return res[1] if res[0] == "sat" else None


# ------------------------------------------------------------------ evaluation under a model
class Model:
    def __init__(self, m):
        self.m, self.c = m, {}

    def tm(self, t):
        if type(t) is int: return t
        c = self.c
        if t.id in c: return c[t.id]
        for x in walk([t]):
            if x.id in c: continue
            c[x.id] = v = self._ev(x)
            if x.isb: c[x.neg.id] = not v
        return c[t.id]

    def g(self, x):
        return x if type(x) is int else self.c[x.id]

    def _ev(self, t):
        o = t.op
        if o == "true": return True
        if o == "false": return False
        if o == "bvar": return bool(self.m.get(t.id, False))
        if o == "ivar": 
            d = t.lo if t.lo is not None else t.hi if t.hi is not None and t.hi < 0 else 0
            return self.m.get(t.id, d)
        a = t.a
        g = self.g
        if o == "and": return g(a[0]) and g(a[1])
        if o == "lin": return a[0] + sum(k * g(x) for x, k in a[1])
        if o == "mul": return g(a[0]) * g(a[1])
        if o == "ite": return g(a[1]) if g(a[0]) else g(a[2])
        if o == "ge0": return g(a[0]) >= 0
        if o == "eq0": return g(a[0]) == 0
        if o in ("div", "mod"):
            y = g(a[1])
            return 0 if y == 0 else (ediv if o == "div" else emod)(g(a[0]), y)
        if o[:2] == "bv": return bvop(o[2:], a[0], g(a[1]), g(a[2]))
        raise Unsupported(o)

    def conc(self, v):
        t = type(v)
        if t is Tm:
            r = self.tm(v)
            return BC(r) if v.isb else r
        if t in (int, str) or v is ARB or v.conc: return v
        if t is U:
            for g, w in v.alts:
                if self.tm(g): return self.conc(w)
            return ARB
        if t is D: return mkD(v.con, [self.conc(f) for f in v.fs])
        if t is SeqV: return mkSeq([self.conc(f) for f in v.es])
        if t is Bv: return mkBv(v.w, self.tm(v.t))
        if t is SetV: return mkSet({self.conc(k): T for k, g in v.m.items() if self.tm(g)})
        if t is MapV: return mkMap({self.conc(k): (T, self.conc(w)) for k, (g, w) in v.m.items() if self.tm(g)})
        if t is MSetV: return mkMSet({k: self.tm(n) for k, n in v.m.items()})
        if t is LSet: return self.conc(set_mat(v))
        if t is LMap: return self.conc(map_mat(v))
        return v
