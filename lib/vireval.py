"""Bounded symbolic evaluation of the spec-mode Verus code: the VIR that Verus itself produces from the sources is translated, function by
function, to the expression trees of dfy.py and evaluated there; vstd's Seq/Set/Map/Multiset operations are the ones of sv.py.
"""
import re
import dfy, vir, sv
from dfy import *
from sv import *

dfy.POLK = dfy.POLK | {"vcall", "vdyn"}
INT, NAT, BOOL = ("int", None, None), ("int", 0, None), ("bool",)


class VMod:
    """The single module every VIR name lives in."""
    name = ""
    ctors = {}

    def mems(self): return {}
    def opened(self): return []
    def all_sub(self): return {}


MOD = VMod()


def kwl(l, i=1):
    return vir.kw([None] + l[i:])


def vname(v):
    """VarIdent to a unique name."""
    return v[1].lstrip('"') + ("~" + str(v[2][-1]) if isinstance(v[2], list) and len(v[2]) > 1 and v[2][1] != "AirLocal" else "")


def sub(s, names):
    for n in names: yield n


class World:
    def __init__(self, crate):
        self.c = crate
        self.fns, self.dts = {}, {}
        self.mods, self.scopes, self.scoped = {}, {}, {}
        self.timpl = None

    # ---- trait resolution
    def impls(self, meth):
        """Implementations of a trait method: [(Self type head, fn path)]."""
        if self.timpl is None:
            self.timpl = {}
            pat = re.compile(rb":name\s+\(Fun\s+:path\s+([^\s()]+)\s*\)\s*:proxy\s+\S+\s*:kind\s+\(FunctionKind\s+TraitMethodImpl\s+:method\s+\(Fun\s+:path\s+([^\s()]+)\s*\)")
            for m in pat.finditer(self.c.data):
                self.timpl.setdefault(m.group(2).decode(), []).append(m.group(1).decode())
        return self.timpl.get(meth, [])

    # ---- datatypes
    def dt(self, path):
        d = self.dts.get(path)
        if d is None:
            r = self.c.dt(path)
            tps = [x[1][1:] if isinstance(x, list) and x[0] == "tuple" else x[1:] for x in r["typ_params"]]
            ctors = []
            for v in r["variants"]:
                k = kwl(v)
                fs = [(f[1][1:] if f[1].startswith('"') else f[1], ("vt", f[2][1])) for f in k["fields"]]
                ctors.append((k["name"][1:], fs))
            d = self.dts[path] = dict(k="datatype", name=path, tps=tps, ctors=[c for c in ctors if not c[0].startswith("dummy_to_use_type_params")],
                                      members=[])
        return d

    # ---- functions
    def fn(self, path):
        f = self.fns.get(path)
        if f is None:
            r = self.c.fn(path)
            if r is None: raise Unsupported("no function " + path)
            mode = r.mode if isinstance(r.mode, str) else r.mode[-1]
            tr = Tr(self, path)
            tps = [t[1:] if isinstance(t, str) else t[1][1:] for t in r.typ_params]
            body = None
            if mode == "Spec" and r.body != "None":
                body = tr.e(r.body)
            rets = [] if r.ret["typ"] == ["Typ", "Datatype", ["Dt", "Tuple", "0"], [], []] else [(vname(r.ret["name"]), ("vt", r.ret["typ"]))]
            ens = r.ensure[1] + r.ensure[2] if r.ensure and r.ensure[0] == "tuple" else r.ensure
            if r.ensure and r.ensure[0] == "tuple": ens = list(r.ensure[1]) + list(r.ensure[2])
            f = self.fns[path] = dict(k="function" if mode == "Spec" else "method", kind="lemma" if mode == "Proof" else mode, name=path, tps=tps,
                                      params=[(vname(p[1]), ("vt", p[2]), ()) for p in r.params], rets=[] if mode == "Spec" else rets,
                                      rty=("vt", r.ret["typ"]), requires=[tr.e(x) for x in r.require] if mode != "Exec" else [],
                                      ensures=[tr.e(x) for x in ens] if mode != "Exec" else [], body=body, mods=(), reads=[], res=None, attrs=[], mode=mode,
                                      dec=[tr.e(x) for x in r.k["decrease"]] if mode == "Spec" and r.k["decrease"] else None,
                                      when=tr.e(r.k["decrease_when"][1] if r.k["decrease_when"][0] == "Some" else r.k["decrease_when"]) if mode == "Spec" and r.k.get("decrease_when", "None") not in ("None", []) else None)
        return f


CMP = {"Le": "<=", "Lt": "<", "Ge": ">=", "Gt": ">"}
AR = {"Add": "+", "Sub": "-", "Mul": "*", "EuclideanDiv": "/", "EuclideanMod": "%"}


class Tr:
    """One function's VIR to expression trees."""
    def __init__(self, w, path):
        self.w, self.path = w, path

    def e(self, x):
        while x[0] in ("@@", "@"): x = x[2]
        if x[0] == ">":
            return getattr(self, "x_" + x[1], self.unk)(x)
        if x[0] == "Place": return self.place(x)
        raise Unsupported("VIR " + str(x)[:80])

    def unk(self, x): return ("vunsup", "VIR " + x[1])

    def typ(self, x):
        return x[3] if x[0] == "@@" and len(x) > 3 else None

    def place(self, x):
        while x[0] in ("@@", "@"): x = x[2]
        k = x[1]
        if k == "Local": return ("id", vname(x[2]))
        if k == "Temporary": return self.e(x[2])
        if k == "Field":
            f = kwl(x[2])
            return self.fld(f, self.place(x[3]))
        if k in ("DerefMut", "MaybeReborrow"): return self.place(x[2])
        return ("vunsup", "place " + k)

    def fld(self, f, e):
        return ("vfield", e, f["variant"][1:], f["field"].lstrip('"'), f["datatype"][2] if f["datatype"][1] == "Path" else None)

    def x_ReadPlace(self, x): return self.place(x[2])
    def x_Place(self, x): return self.place(x[2])
    def x_Var(self, x): return ("id", vname(x[2]))
    def x_VarLoc(self, x): return ("id", vname(x[2]))

    def x_Const(self, x):
        c = x[2]
        if c[1] == "Bool": return ("bool", c[2] == "true")
        if c[1] == "Int": return ("num", int(c[2]))
        if c[1] == "StrSlice": return ("str", c[2][1:])
        if c[1] == "Char": return ("num", ord(c[2][1:2]) if isinstance(c[2], str) else 0)
        return ("vunsup", "const " + str(c)[:40])

    def x_ConstVar(self, x): return ("vcall", x[2][2], [], [])
    def x_WithTriggers(self, x): return self.e(kwl(x, 2)["body"])

    def x_Block(self, x):
        body = self.e(x[3]) if x[3] != "None" else ("tuple", [])
        for s in reversed(x[2]):
            st = s[2]
            if st[1] == "Decl":
                k = kwl(st)
                body = ("let", [self.pat(k["pattern"])], [self.e(k["init"])], body)
            elif st[1] == "Expr": pass
            else: return ("vunsup", "statement " + st[1])
        return body

    def pat(self, p):
        while p[0] in ("@@", "@"): p = p[2]
        if p[1] == "Var": return ("pv", vname(kwl(p[2])["name"]), 1)
        if p[1] == "Wildcard": return ("pv", "_", 1)
        if p[1] == "Constructor":
            dt, var, fs = p[2], p[3][1:], p[4]
            if dt[1] == "Tuple":
                out = [("pv", "_", 1)] * int(dt[2])
                for b in fs: out[int(b[1].lstrip('"'))] = self.pat(b[2])
                return ("ptup", out)
            d = self.w.dt(dt[2])
            fl = next((f for c, f in d["ctors"] if c == var), None)
            if fl is None: return ("pc", var, [])
            out = [("pv", "_", 1)] * len(fl)
            ns = [n for n, _ in fl]
            for b in fs: out[ns.index(b[1].lstrip('"'))] = self.pat(b[2])
            return ("pc", var, out)
        raise Unsupported("pattern " + str(p[1]))

    def x_Match(self, x):
        arms = []
        for a in x[3]:
            k = kwl(a[2])
            g = self.e(k["guard"])
            if g != ("bool", True): return ("vunsup", "match guard")
            arms.append((self.pat(k["pattern"]), self.e(k["body"])))
        return ("match", self.e(x[2]), arms)

    def x_If(self, x):
        return ("ite", self.e(x[2]), self.e(x[3]), self.e(x[4]) if x[4] != "None" else ("tuple", []))

    def x_Logical(self, x):
        o = x[2][1]
        a, b = self.e(x[3]), self.e(x[4])
        if o == "And": return ("and", (a[1] if a[0] == "and" else [a]) + (b[1] if b[0] == "and" else [b]))
        if o == "Or": return ("or", [a, b])
        if o == "Implies": return ("bin", "==>", a, b)
        return ("vunsup", "logical " + o)

    def x_Binary(self, x):
        o = x[2]
        a, b = self.e(x[3]), self.e(x[4])
        k = o[1]
        if k in ("And", "Or"): return (k.lower(), [a, b])
        if k == "Implies": return ("bin", "==>", a, b)
        if k == "Eq": return ("bin", "==", a, b)
        if k == "Ne": return ("bin", "!=", a, b)
        if k == "Xor": return ("bin", "!=", a, b)
        if k == "Inequality": return ("bin", CMP[o[2][1]], a, b)
        if k == "Arith": 
            n = o[2][1]
            if n in AR: return ("bin", AR[n], a, b)
            if n == "EuclideanDiv": return ("bin", "/", a, b)
        return ("vunsup", "binary " + str(o)[:60])

    def x_BinaryOpr(self, x): return ("bin", "==", self.e(x[3]), self.e(x[4]))

    def x_Multi(self, x):
        ops = []
        for o in x[2][2]:
            ops.append("==" if o[1] != "Inequality" else CMP[o[2][1]])
        return ("chain", ops, [self.e(y) for y in x[3]])

    def x_Unary(self, x):
        o = x[2]
        k = o[1]
        if k == "Not": return ("un", "!", self.e(x[3]))
        if k == "Clip": return ("vclip", kwl(o)["range"], self.e(x[3]))
        if k in ("Trigger", "CastToInteger", "CoerceMode", "MustBeFinalized", "InferSpecForLoopIter", "HeightTrigger", "MustBeElaborated", "FloatToBits", "ToDyn"):
            return self.e(x[3])
        return ("vunsup", "unary " + str(o)[:60])

    def x_UnaryOpr(self, x):
        o = x[2]
        k = o[1]
        if k in ("Box", "Unbox", "ProofNote", "CustomErr", "Autospec"): return self.e(x[3])
        if k == "HasType": return ("bool", True)
        if k == "IsVariant":
            f = kwl(o)
            return ("visv", self.e(x[3]), f["variant"][1:])
        if k == "Field": return self.fld(kwl(o[2]), self.e(x[3]))
        if k == "IntegerTypeBound":
            kind = o[2][1]
            if kind == "ArchWordBits": return ("num", 64)
            return ("vbound", kind, self.e(x[3]))
        return ("vunsup", "unary " + str(o)[:60])

    def x_Quant(self, x):
        q = x[2][0] if isinstance(x[2], list) else x[2]
        q = q if isinstance(q, str) else q[0]
        if q == "Quant": q = x[2][1]
        vs = [(self.bn(b), ("vt", b[2])) for b in x[3]]
        body = self.e(x[4])
        return ("forall" if q == "Forall" else "exists", vs, None, body)

    def bn(self, b):
        return b[1].lstrip('"') if isinstance(b[1], str) else vname(b[1])

    def x_Closure(self, x):
        return ("vlam", [(self.bn(b), ("vt", b[2])) for b in x[2]], None, self.e(x[3]))

    def x_Choose(self, x):
        k = kwl(x, 2)
        return ("vchoose", [("pv", self.bn(b), ("vt", b[2])) for b in k["params"]], self.e(k["cond"]), self.e(k["body"]))

    def x_Ctor(self, x):
        dt, var, bs, upd = x[2], x[3][1:], x[4], x[5]
        fs = {b[1].lstrip('"'): self.e(b[2]) for b in bs}
        if dt[1] == "Tuple": return ("tuple", [fs[str(i)] for i in range(int(dt[2]))])
        base = None
        if upd != "None":
            u = upd
            while isinstance(u, list) and u and u[0] in ("Some", "tuple", "CtorUpdateTail"): u = kwl(u)["place"] if u[0] == "CtorUpdateTail" else u[1]
            base = self.place(u)
        return ("vctor", dt[2], var, fs, base)

    def x_Call(self, x):
        k = kwl(x, 2)
        t = k["target"]
        args = [self.e(a) for a in k["args"]]
        if t[1] == "FnSpec": return ("vapply", self.e(t[2]), args)
        if t[1] == "BuiltinSpecFun": return ("vunsup", "closure spec")
        kind, f, targs = t[2], t[3][2], t[4]
        return self.call(f, targs, args, kind)

    def call(self, f, targs, args, kind):
        b = BUILTIN.get(f)
        if b is not None: return b(targs, args)
        if f.startswith("vstd::") or f.startswith("core::") or f.startswith("alloc::"):
            for p, g in PREFIX:
                if f == p: return g(targs, args)
        if kind[1] == "DynamicResolved":
            r = kwl(kind)
            rf = r["resolved"][2]
            b = BUILTIN.get(rf)
            if b is not None: return b(r["typs"], args)
            return ("vcall", rf, r["typs"], args)
        if kind[1] == "Dynamic": return ("vdyn", f, targs, args)
        return ("vcall", f, targs, args)

    def x_ArrayLiteral(self, x): return ("seq", [self.e(y) for y in x[2]])


def vt(t): return ("vt", t)


def lam1(c, ty):
    """(variable, type, body) of a closure expression."""
    if c[0] == "vlam" and len(c[1]) == 1: return c[1][0][0], c[1][0][1], c[3]
    return "%x", vt(ty), ("vapply", c, [("id", "%x")])


def b_setnew(ts, a):
    n, ty, g = lam1(a[0], ts[0])
    return ("setc", [(n, ty)], g, None, True)


def b_mapnew(ts, a):
    n, ty, g = lam1(a[0], ts[0])
    m, _, b = lam1(a[1], ts[0])
    if m != n: b = ("let", [("pv", m, 1)], [("id", n)], b)
    return ("mapc", [(n, ty)], g, b, None, True)


def py(f):
    def g(*a): return ARB if any(x is ARB for x in a) else f(*a)
    return lambda ts, a: ("vpy", g, a, ts)


def first_n(n): return lambda ts, a: a[n]


def setv(s): return set_mat(s)


def seq_insert(s, i, x): return lift(lambda s, i: ARB if s is ARB else seq_cat(seq_cat(seq_sub(s, 0, i), mkSeq([x])), seq_sub(s, i, None)), s, i)


def seq_remove(s, i): return lift(lambda s, i: ARB if s is ARB else seq_cat(seq_sub(s, 0, i), seq_sub(s, iadd(i, 1), None)), s, i)


def seq_toset(s):
    if s is ARB: return ARB
    if type(s) is U: return merge_list([(g, seq_toset(v)) for g, v in s.alts])
    return set_from([(T, x) for x in s.es])


def nodup(s):
    if s is ARB: return arb_bool()
    if type(s) is U: return OrL([And(g, nodup(v)) for g, v in s.alts])
    return AndL([eq(a, b).neg for i, a in enumerate(s.es) for b in s.es[:i]])


def seq_ms(s):
    if s is ARB: return ARB
    if type(s) is U: return merge_list([(g, seq_ms(v)) for g, v in s.alts])
    return ms_from([(x, 1) for x in s.es])


def agrees(a, b):
    return AndL([Implies(And(map_has(a, k), map_has(b, k)), eq(map_get(a, k), map_get(b, k))) for k in dedup(list(map_univ(a)))])


def map_remove(m, k): return map_restrict(m, lambda x: eq(x, k).neg)
def in_(k, s): return set_has(s, k)


def disj(a, b):
    if a is ARB or b is ARB: return arb_bool()
    if type(a) is U: return OrL([And(g, disj(v, b)) for g, v in a.alts])
    return AndL([And(set_has(a, k), set_has(b, k)).neg for k in dedup(list(set_univ(a)) + list(set_univ(b)))])


def ms_remove(m, k):
    if type(m) is MSetV and k is ms_choose(m):  # removing the chosen element: bounds shrink
        out, none = {}, T
        for x, n in m.m.items():
            p = ilt(0, n)
            out[x] = ite(none, imax(isub(n, 1), 0), n)
            none = And(none, p.neg)
        return mkMSet(out)
    return ms_bin(m, ms_from([(k, 1)]), "-")


def ms_dom(m):
    if m is ARB: return ARB
    if type(m) is U: return merge_list([(g, ms_dom(v)) for g, v in m.alts])
    return mkSet({k: ilt(0, n) for k, n in m.m.items()})


def ms_choose(m):
    """The least element of the multiset (nothing depends on which)."""
    if type(m) is U: return merge_list([(g, ms_choose(v) if v is not ARB else ARB) for g, v in m.alts])
    out, none = [], T
    for k, n in m.m.items():
        p = ilt(0, n)
        out.append((And(none, p), k))
        none = And(none, p.neg)
    return merge_list(out + [(none, ARB)])


def is_empty_set(s): return AndL([set_has(s, k).neg for k in set_univ(s)])


S, M, I, Q = "vstd::iset::", "vstd::imap::", "vstd::imap_lib::", "vstd::seq::"
def B2(op): return lambda ts, a: ("bin", op, a[0], a[1])
BUILTIN = {
    "vstd::pervasive::arbitrary": lambda ts, a: ("varb",),
    "vstd::pervasive::spec_affirm": first_n(0),
    "vstd::pervasive::proof_from_false": lambda ts, a: ("varb",),
    "vstd::math::max": py(imax), "vstd::math::min": py(imin),
    # sequences
    "vstd::seq::Seq::empty": lambda ts, a: ("seq", []),
    "vstd::seq::Seq::new": lambda ts, a: ("seqc", a[0], a[1]),
    "vstd::seq::Seq::len": lambda ts, a: ("len", a[0]),
    "vstd::seq::Seq::index": lambda ts, a: ("index", a[0], a[1]),
    "vstd::seq::impl&%2::spec_index": lambda ts, a: ("index", a[0], a[1]),
    "vstd::seq::Seq::push": lambda ts, a: ("bin", "+", a[0], ("seq", [a[1]])),
    "vstd::seq::Seq::update": lambda ts, a: ("sequpd", a[0], a[1], a[2]),
    "vstd::seq::Seq::subrange": lambda ts, a: ("slice", a[0], a[1], a[2]),
    "vstd::seq::impl&%2::take": lambda ts, a: ("slice", a[0], None, a[1]),
    "vstd::seq::impl&%2::skip": lambda ts, a: ("slice", a[0], a[1], None),
    "vstd::seq::Seq::add": B2("+"), "vstd::seq::impl&%2::spec_add": B2("+"),
    "vstd::seq::Seq::last": lambda ts, a: ("vlast", a[0]),
    "vstd::seq_lib::impl&%0::insert": py(seq_insert), "vstd::seq_lib::impl&%0::remove": py(seq_remove),
    "vstd::seq_lib::impl&%0::contains": lambda ts, a: ("bin", "in", a[1], a[0]),
    "vstd::seq_lib::impl&%0::to_iset": py(seq_toset), "vstd::seq_lib::impl&%0::to_set": py(seq_toset),
    "vstd::seq_lib::impl&%0::no_duplicates": py(nodup),
    # sets
    "vstd::iset::ISet::empty": lambda ts, a: ("setd", []),
    "vstd::iset::impl&%0::new": b_setnew,
    "vstd::iset::ISet::full": lambda ts, a: ("setc", [("%x", vt(ts[0]))], ("bool", True), None, True),
    "vstd::iset::ISet::contains": lambda ts, a: ("bin", "in", a[1], a[0]),
    "vstd::set::Set::contains": lambda ts, a: ("bin", "in", a[1], a[0]),
    "vstd::iset::ISet::subset_of": B2("<="), "vstd::iset::impl&%0::spec_le": B2("<="),
    "vstd::iset::ISet::insert": lambda ts, a: ("bin", "+", a[0], ("setd", [a[1]])),
    "vstd::iset::ISet::remove": lambda ts, a: ("bin", "-", a[0], ("setd", [a[1]])),
    "vstd::iset::impl&%0::union": B2("+"), "vstd::iset::impl&%0::spec_add": B2("+"),
    "vstd::iset::impl&%0::intersect": B2("*"), "vstd::iset::impl&%0::difference": B2("-"), "vstd::iset::impl&%0::spec_sub": B2("-"),
    "vstd::iset::impl&%0::complement": lambda ts, a: ("bin", "-", ("setc", [("%x", vt(ts[0]))], ("bool", True), None, True), a[0]),
    "vstd::iset::impl&%0::finite": lambda ts, a: ("bool", True),
    "vstd::iset::impl&%0::len": lambda ts, a: ("len", a[0]), "vstd::set::impl&%0::len": lambda ts, a: ("len", a[0]),
    "vstd::iset::impl&%0::disjoint": py(disj),
    "vstd::iset_lib::impl&%0::is_empty": py(is_empty_set),
    "vstd::set::impl&%0::to_iset": first_n(0),
    # maps
    "vstd::imap::impl&%0::empty": lambda ts, a: ("mapd", []),
    "vstd::imap::impl&%0::new": b_mapnew,
    "vstd::imap::impl&%0::dom": lambda ts, a: ("dot", a[0], "Keys"),
    "vstd::imap::impl&%0::index": lambda ts, a: ("index", a[0], a[1]), "vstd::imap::impl&%0::spec_index": lambda ts, a: ("index", a[0], a[1]),
    "vstd::imap::impl&%0::insert": lambda ts, a: ("sequpd", a[0], a[1], a[2]),
    "vstd::imap::impl&%0::remove": py(map_remove),
    "vstd::imap_lib::impl&%0::contains_key": lambda ts, a: ("bin", "in", a[1], a[0]),
    "vstd::imap_lib::impl&%0::contains_value": lambda ts, a: ("bin", "in", a[1], ("dot", a[0], "Values")),
    "vstd::imap_lib::impl&%0::values": lambda ts, a: ("dot", a[0], "Values"),
    "vstd::imap_lib::impl&%0::spec_le": py(map_sub), "vstd::imap_lib::impl&%0::submap_of": py(map_sub),
    "vstd::imap_lib::impl&%0::union_prefer_right": py(map_union),
    "vstd::imap_lib::impl&%0::remove_keys": py(lambda m, s: map_restrict(m, lambda k: set_has(s, k).neg)),
    "vstd::imap_lib::impl&%0::restrict": py(lambda m, s: map_restrict(m, lambda k: set_has(s, k))),
    "vstd::imap_lib::impl&%0::agrees": py(agrees),
    "vstd::array::array_view": first_n(0), "vstd::array::impl&%0::view": first_n(0), "vstd::slice::impl&%0::view": first_n(0),
    "vstd::array::impl&%2::spec_index": lambda ts, a: ("index", a[0], a[1]),
    # options
    "core::option::impl&%0::unwrap": lambda ts, a: ("vfield", a[0], "Some", "0", "core::option::Option"),
    "vstd::std_specs::option::spec_unwrap": lambda ts, a: ("vfield", a[0], "Some", "0", "core::option::Option"),
    "core::option::impl&%0::is_some": lambda ts, a: ("visv", a[0], "Some"), "vstd::std_specs::option::is_some": lambda ts, a: ("visv", a[0], "Some"),
    "core::option::impl&%0::is_none": lambda ts, a: ("visv", a[0], "None"), "vstd::std_specs::option::is_none": lambda ts, a: ("visv", a[0], "None"),
    # the old vstd's multisets
    "lib::oldvstd::impl&%0::count": py(ms_count), "lib::oldvstd::impl&%0::empty": lambda ts, a: ("msd", []),
    "lib::oldvstd::impl&%0::singleton": lambda ts, a: ("msd", [a[0]]),
    "lib::oldvstd::impl&%0::add": B2("+"), "lib::oldvstd::impl&%0::spec_add": B2("+"),
    "lib::oldvstd::impl&%0::sub": B2("-"), "lib::oldvstd::impl&%0::spec_sub": B2("-"),
    "lib::oldvstd::impl&%0::insert": lambda ts, a: ("bin", "+", a[0], ("msd", [a[1]])),
    "lib::oldvstd::impl&%0::remove": py(ms_remove),
    "lib::oldvstd::impl&%0::subset_of": py(ms_sub), "lib::oldvstd::impl&%0::spec_le": py(ms_sub), "lib::oldvstd::impl&%0::le": py(ms_sub),
    "lib::oldvstd::impl&%0::contains": lambda ts, a: ("bin", "in", a[1], a[0]),
    "lib::oldvstd::impl&%0::dom": py(ms_dom), "lib::oldvstd::impl&%0::len": py(ms_len),
    "lib::oldvstd::impl&%0::choose": py(ms_choose),
    "lib::oldvstd::impl&%0::is_empty": py(lambda m: ieq(ms_len(m), 0)),
    "lib::oldvstd::impl&%1::to_omultiset": py(seq_ms), "lib::oldvstd::OldSeq::to_omultiset": py(seq_ms), "lib::oldvstd::seq_to_multiset": py(seq_ms),
    "lib::oldvstd::impl&%0::intersection_with": B2("*"), "lib::oldvstd::impl&%0::difference_with": B2("-"),
    "lib::oldvstd::impl&%0::is_disjoint_from": py(lambda a, b: ieq(ms_len(ms_bin(a, b, "*")), 0)),
    "lib::oldvstd::impl&%0::update": lambda ts, a: ("sequpd", a[0], a[1], a[2]),
}
for _k in list(BUILTIN):
    if _k.startswith("lib::oldvstd::impl&%0::"):
        for _m in ("multiset", "multiset_lib"): BUILTIN.setdefault(_k.replace("lib::oldvstd::", f"vstd::{_m}::"), BUILTIN[_k])
PREFIX = []
SEQ, SET, MAP = ("vstd::seq::Seq",), ("vstd::iset::ISet", "vstd::set::Set"), ("vstd::imap::IMap", "vstd::map::Map")
WRAP = ("verus_builtin::Ghost", "verus_builtin::Tracked", "vstd::prelude::Ghost", "vstd::prelude::Tracked")


def lexdec(old, new):
    """The measure left for a call whose measure is at most `new` below one of at most `old`; None if there is no such call."""
    if not old: return None
    if not new: return ()
    if new[0] < old[0]: return new
    r = lexdec(old[1:], new[1:])
    if r is not None: return (old[0],) + r
    return (old[0] - 1,) + new[1:] if old[0] > 0 else None


class VEv(dfy.Exec):
    noval = True
    cut = again = 0

    def call_split(self, *a):
        self.again = 1
        return self.call(*a)
    def __init__(self, world, cfg):
        super().__init__(world, cfg)
        self.maxtick = getattr(cfg, "maxtick", self.maxtick)
        self.partial = 0        # instantiations of goal existentials that may have missed a witness
        self.inst = getattr(cfg, "inst", {})
        self.curty = {}
        self.budget = {}
        self.nests = {}

    # ---- types
    def rt(self, t, mod, ty=None):
        if t[0] != "vt": return t if t[0] in ("?",) else super().rt(t, mod, ty)
        return self.vtyp(t[1], ty or {})

    def vtyp(self, t, ty):
        k = t[1]
        if k == "Bool": return BOOL
        if k == "Int":
            r = t[2]
            if r[1] == "Int": return INT
            if r[1] == "Nat": return NAT
            if r[1] == "Char": return ("int", 0, 255, "char")
            if r[1] in ("USize", "U"):
                w = int(r[2]) if r[1] == "U" else 64
                return ("int", 0, 2 ** w - 1, f"u{w}")
            w = int(r[2]) if r[1] == "I" else 64
            return ("int", -2 ** (w - 1), 2 ** (w - 1) - 1, f"i{w}")
        if k == "Datatype":
            d, args = t[2], [self.vtyp(x, ty) for x in t[3]]
            if d[1] == "Tuple": return ("tuple", tuple(args))
            p = d[2]
            if p in SEQ: return ("seq", args[0])
            if p in SET: return ("iset", args[0])
            if p in MAP: return ("imap", args[0], args[1])
            if p in ("lib::oldvstd::OMultiset", "vstd::multiset::Multiset"): return ("multiset", args[0])
            if p in WRAP: return args[0]
            if p == "alloc::vec::Vec": return ("seq", args[0])
            return ("data", p, "", tuple(args))
        if k == "Primitive" and t[2][1] in ("Array", "Slice"):
            el = self.vtyp(t[3][0], ty)
            if t[2][1] == "Array" and t[3][1][1] == "ConstInt": return ("seqn", el, int(t[3][1][2]))
            return ("seq", el)
        if k == "ConstInt": return ("const", int(t[2]))
        if k in ("Decorate",): return self.vtyp(t[4] if len(t) > 4 else t[-1], ty)
        if k == "Boxed": return self.vtyp(t[2], ty)
        if k == "TypParam":
            n = t[2][1:]
            return ty[n] if n in ty else self.inst.get(n, ("tv", n))
        if k == "SpecFn": return ("fun", tuple(self.vtyp(x, ty) for x in t[2]), self.vtyp(t[3], ty))
        raise Unsupported("type " + str(t)[:60])

    def fresh(self, t, nm, depth=None):
        if t[0] == "seqn": return mkSeq([super(VEv, self).fresh(t[1], f"{nm}[{i}]", depth) for i in range(t[2])])
        return super().fresh(t, nm, depth)

    def universe(self, t, depth=None):
        if t[0] == "seqn":
            us = self.universe(t[1], depth)
            out = [mkSeq(x) for x in self.prod([us] * t[2])]
            return self.cap(out)
        return super().universe(t, depth)

    def wmod(self, n): return MOD

    def ddecl(self, t): return self.w.dt(t[1]), MOD

    def cfg_type(self, t, table):
        if t[0] == "data":
            short = t[1].rsplit("::", 1)[-1]
            sm = "::".join(t[1].rsplit("::", 2)[-2:])
            for n in (t[1], sm, short):
                if n in table: return table[n]
            if t[1] == "lib::spec::AsyncDisk_t::Address" and getattr(self.cfg, "addrs", None):
                con = self.con_of(t[1], "Address")[0]
                return [mkD(con, a) for a in self.cfg.addrs]
            return None
        if t[0] == "int" and len(t) > 3: return table.get(t[3])
        return None

    def con_of(self, path, var):
        d = self.w.dt(path)
        for i, (cn, fs) in enumerate(d["ctors"]):
            if cn == var: return self.dcon(d, MOD, i), fs
        raise Unsupported(f"constructor {path}.{var}")

    # ---- expressions
    def e_vunsup(self, e, env): raise Unsupported(e[1])
    def e_varb(self, e, env): return ARB

    def e_id(self, e, env):
        v = env.vars.get(e[1])
        if v is None: raise Unsupported("name " + e[1])
        return v

    def e_vfield(self, e, env):
        _, x, var, f, dt = e
        v = self.ev(x, env)
        if dt is None:
            return merge_list([(g, w.fs[int(f)] if type(w) is D else ARB) for g, w in alts(v)])
        if dt in WRAP: return v
        out = []
        for g, w in alts(v):
            if type(w) is not D: out.append((g, ARB)); continue
            d, i, _ = self.con[w.con]
            cn, fs = d["ctors"][i]
            if cn == var:
                r = next((w.fs[j] for j, (fn, _) in enumerate(fs) if fn == f), ARB)
            else: r = self.wrong(dt, var, f, d, w)
            out.append((g, r))
        return merge_list(out)

    def wrong(self, dt, var, f, d, w):
        """A field of another constructor: an unknown but fixed function of the value."""
        if d["tps"]: return ARB
        ft = next((t for cn, fs in d["ctors"] if cn == var for fn, t in fs if fn == f), None)
        if ft is None: return ARB
        try:
            t = self.rt(ft, MOD, {})
            if len(self.universe(t)) > 12: return ARB
            cs = cases(w)
        except (Blowup, Unsupported): return ARB
        out = []
        for g, x in cs:
            key = ("wrong", dt, var, f, dfy._k(x))
            if key not in self.ufs: self.ufs[key] = self.fresh(t, f"{f} of {x}")
            out.append((g, self.ufs[key]))
        return merge_list(out)

    def e_visv(self, e, env):
        v = self.ev(e[1], env)
        r = F
        for g, w in alts(v):
            if w is ARB: r = Or(r, And(g, arb_bool()))
            elif self.con[w.con][0]["ctors"][self.con[w.con][1]][0] == e[2]: r = Or(r, g)
        return r

    def e_vctor(self, e, env):
        _, path, var, fs, base = e
        if path in WRAP: return self.ev(next(iter(fs.values())), env)
        con, fl = self.con_of(path, var)
        b = self.ev(base, env) if base is not None else None
        out = []
        for j, (n, _) in enumerate(fl):
            if n in fs: out.append(self.ev(fs[n], env))
            else: out.append(merge_list([(g, w.fs[j] if type(w) is D and w.con == con else ARB) for g, w in alts(b)]))
        return mkD(con, out)

    def e_vclip(self, e, env):
        v = self.ev(e[2], env)
        r = e[1]

        def f(x):
            if x is ARB or not isI(x): return x
            if r[1] == "Int": return x
            l, h = rng(x)
            if r[1] == "Nat": return x if l is not None and l >= 0 else imax(x, 0)
            if r[1] in ("U", "USize"):
                w = int(r[2]) if r[1] == "U" else 64
                if l is not None and l >= 0 and h is not None and h < 2 ** w: return x
                return imod(x, 2 ** w)
            return x
        return lift(f, v)

    def e_vbound(self, e, env):
        w = self.ev(e[2], env)
        return {"UnsignedMax": 2 ** w - 1, "SignedMax": 2 ** (w - 1) - 1, "SignedMin": -2 ** (w - 1)}[e[1]]

    def e_vlast(self, e, env):
        v = self.ev(e[1], env)
        return merge_list([(g, w.es[-1] if type(w) is SeqV and w.es else ARB) for g, w in alts(v)])

    def e_vpy(self, e, env): return e[1](*[self.ev(a, env) for a in e[2]])

    def e_vlam(self, e, env):
        ns = [p[0] for p in e[1]]
        return mkFn(lambda *a: self.ev(e[3], env.sub(dict(zip(ns, a)))), "closure")

    def e_vapply(self, e, env):
        f = self.ev(e[1], env)
        av = [self.ev(a, env) for a in e[2]]
        return lift(lambda g: ARB if g is ARB else g.fn(*av), f)

    def e_vchoose(self, e, env):
        if self.pol: return self.at(0, self.e_vchoose, e, env)
        return self.choose([(p[1], p[2]) for p in e[1]], e[2], env, e[3])[1]

    def e_setc(self, e, env):
        _, vs, g, b, inf = e
        if inf and b is None and len(vs) == 1: return self.lazyset(vs[0], g, env)
        return super().e_setc(e, env)

    def lazyset(self, v, g, env):
        n, ty = v
        memo = []

        def univ():
            if not memo: memo.append(dedup([x.vars[n] for h, x in self.expand([v], conjs(g), env, (g,))]))
            return memo[0]
        return mkL(lambda x: self.at(0, self.B, g, env.sub({n: x})), univ)

    # ---- calls
    def e_vcall(self, e, env):
        _, path, targs, args = e
        d = self.w.fn(path)
        if d["mode"] not in ("Spec",): raise Unsupported("call of " + path)
        av = [self.ev0(a, env) for a in args]
        return self.vcall(d, targs, av, env)

    def vcall(self, d, targs, av, env):
        tys = [self.vtyp(x, env.ty) for x in targs]
        m = (d["name"],) + tuple(tys) if tys else None
        if m is not None:
            # one declaration per instance, so that memoisation does not mix them
            dd = self.w.fns.get(m)
            if dd is None: dd = self.w.fns[m] = dict(d)
            d = dd
        return self.call(d, MOD, None, av, env, tys=tys)

    def e_vdyn(self, e, env):
        _, f, targs, args = e
        tys = [self.vtyp(x, env.ty) for x in targs]
        st = tys[0]
        for p in self.w.impls(f):
            r = self.w.c.fn(p)
            k = r.k["kind"]
            ti = kwl(k, 2) if isinstance(k, list) else {}
            self_t = ti.get("trait_typ_args")
            ok = False
            try: it = self.vtyp(self_t[0], {})
            except Exception: continue
            if it[0] == st[0] and (it[0] != "data" or it[1] == st[1]): ok = True
            if ok:
                d = self.w.fn(p)
                sub_ = list(st[3]) if st[0] == "data" else []
                return self.call(d, MOD, None, [self.ev0(a, env) for a in args], env, tys=(sub_ + tys[1:])[:len(d["tps"])])
        raise Unsupported("no implementation of " + f + " for " + str(st)[:60])

    def measure(self, v):
        """Upper bound of a component of a measure: an integer, or the nesting of a value."""
        if v is ARB: return 40
        if isI(v):
            h = self.bound(v, 1)
            return 40 if h is None else h
        return self.nest(v)

    def nest(self, v):
        if type(v) is int: return 0
        k = getattr(v, "id", None)
        r = self.nests.get(k) if k is not None else None
        if r is None:
            t = type(v)
            if t is D: r = 1 + max([self.nest(x) for x in v.fs], default=0)
            elif t is U: r = max(self.nest(x) for _, x in v.alts)
            elif t is SeqV: r = 1 + max([self.nest(x) for x in v.es], default=0)
            elif t is Tm: r = 0
            elif v is ARB: r = 0
            elif t in (MapV, LMap): r = 1 + max([self.nest(map_get(v, u)) for u in map_univ(v)], default=0)
            else: r = 10
            if k is not None: self.nests[k] = r
        return r

    def call(self, d, m, this, args, env, cls=None, tys=None):
        """A recursive function is unfolded as often as its measure allows; where its measure is unguarded it is arbitrary."""
        again, self.again = self.again, 0
        fr = getattr(self.cfg, "free", None)
        if fr and any(re.search(x, d["name"]) for x in fr):  # cut off here: any value of its type
            key = ("free", d["name"]) + tuple(dfy._k(a) for a in args)
            if key not in self.ufs: self.ufs[key] = self.fresh(self.rt(d["rty"], MOD, dict(zip(d["tps"], tys)) if tys else {}), f"{d['name'].rsplit('::', 1)[-1]}#{len(self.ufs)}")
            return self.ufs[key]
        sb = getattr(self.cfg, "subst", None)
        if sb:  # stands for a definition the sources leave open
            for x, n in sb.items():
                if re.search(x, d["name"]): return self.call(self.w.fn(n), m, this, args, env, cls, tys)
        if d.get("dec") is None: return super().call(d, m, this, args, env, cls, tys)
        ty = dict(zip(d["tps"], tys)) if tys else {}
        e2 = Env({p[0]: a for p, a in zip(d["params"], args)}, None, MOD, {}, ty)
        if d["when"] is not None:
            g = self.B0(d["when"], e2)
            if g is F: return ARB
        mv = [self.ev0(x, e2) for x in d["dec"]]
        b0 = self.budget.get(d["name"])
        if b0 is not None and any(x is ARB for x in mv): return ARB
        mv = tuple(map(self.measure, mv))
        nb = mv if b0 is None else min(b0, mv) if again else lexdec(b0, mv)
        if nb is None:
            self.cut += 1
            return ARB
        self.budget[d["name"]] = nb
        c0 = self.cut
        try:
            r = super().call(d, m, this, args, env, cls, tys)
            if self.cut > c0:
                # not the function's value for good: cut off by the measure of an enclosing call
                for p in (0, self.pol): self.memo.pop((id(d), m.name, None, tuple(dfy._k(a) for a in args)) + ((p,) if p else ()), None)
            return r
        finally:
            if b0 is None: del self.budget[d["name"]]
            else: self.budget[d["name"]] = b0

    def uninterp(self, d, m, args, q, cls):
        t = self.rt(d["rty"], m, {x: ("tv", x) for x in d["tps"]})
        out = []
        for combo in itertools.product(*[cases(a) for a in args]):
            g = AndL([c[0] for c in combo])
            if g is F: continue
            key = (q,) + tuple(dfy._k(c[1]) for c in combo)
            if key not in self.ufs: self.ufs[key] = self.fresh(t, f"{q.rsplit('::', 1)[-1]}({','.join(str(c[1]) for c in combo)})")
            out.append((g, self.ufs[key]))
        return merge_list(out)

    # ---- existentials
    def e_exists(self, e, env):
        _, vs, g, b = e
        if self.pol > 0:
            e2 = self.skolem(vs, conjs(b), env, (g, b))
            if e2 is not None: return self.B(b, e2)
        try:
            return super().e_exists(("exists", vs, g, b), env) if self.pol <= 0 else self._listed(vs, b, env)
        except Blowup:
            if self.pol >= 0: raise
            # to be shown: try the values at hand
            r = F
            for cand in self.handy(vs, env, b):
                r = Or(r, self.B(b, env.sub(cand)))
                if r is T: return T
            self.partial += 1
            return r

    def _listed(self, vs, b, env):
        r = F
        for h, e2 in self.at(0, self.expand, vs, conjs(b), env, (None, b)):
            r = Or(r, And(h, self.B(b, e2)))
            if r is T: return T
        return r

    def handy(self, vs, env, b):
        pool = {}
        seen = set()

        def note(t, v, d):
            if v is ARB or d > 6: return
            k = (t[:2], _key(v))
            if k in seen: return
            seen.add(k)
            pool.setdefault(t[:2] if t[0] == "data" else t[:1], []).append((t, v))
            if t[0] == "data":
                dd = self.w.dt(t[1])
                tys = dict(zip(dd["tps"], t[3]))
                for i, (cn, fs) in enumerate(dd["ctors"]):
                    con = self.dcon(dd, MOD, i)
                    ws = [(gg, w) for gg, w in alts(v) if type(w) is D and w.con == con]
                    if not ws: continue
                    for j, (fn, ft) in enumerate(fs):
                        try: note(self.rt(ft, MOD, tys), merge_list([(gg, w.fs[j]) for gg, w in ws]), d + 1)
                        except Unsupported: pass
        for n, v in env.vars.items():
            ty = self.vtypes.get(n)
            if ty is not None:
                try: note(ty, v, 0)
                except Unsupported: pass

        def values(t, d=0):
            if t[0] == "data" and self.cfg_type(t, self.cfg.univ) is None:
                out = [v for tt, v in pool.get(t[:2], []) if tt == t]
                dd = self.w.dt(t[1])
                tys = dict(zip(dd["tps"], t[3]))
                if d < 3 and (d == 0 or len(dd["ctors"]) > 1 or not out):
                    for i, (cn, fs) in enumerate(dd["ctors"]):
                        con = self.dcon(dd, MOD, i)
                        try: opts = [values(self.rt(ft, MOD, tys), d + 1) for _, ft in fs]
                        except (Blowup, Unsupported): continue
                        n = 1
                        for o in opts: n *= len(o)
                        if n > 200: opts = [o[:6] for o in opts]
                        n = 1
                        for o in opts: n *= len(o)
                        if n > 400: continue
                        out += [mkD(con, x) for x in itertools.product(*opts)]
                return out
            try:
                us = self.universe(t)
                if len(us) <= 40: return us
            except (Blowup, Unsupported): pass
            return [v for tt, v in pool.get(t[:1], []) if tt == t]
        opts = [values(self.rt(ty, MOD, env.ty)) for n, ty in vs]
        n = 1
        for o in opts: n *= len(o)
        if n > 2000: raise Blowup("witnesses")
        for x in itertools.product(*opts): yield dict(zip([n for n, _ in vs], x))

    vtypes = {}


def _key(v): return v if type(v) in (int, str) else ("i", v.id)


class R:
    def __init__(self, status, detail="", **k):
        self.status, self.detail = status, detail
        self.inputs = self.confirmed = None
        self.fns, self.approx = {}, set()
        self.__dict__.update(k)


def check_fn(world, cfg, path, timeout=60, want=None):
    """requires => ensures of one proof function over the bounded inputs."""
    sv.INPUTS.clear()
    try: return _check(world, cfg, path, timeout)
    except (Unsupported, Blowup) as e: return R("unsupported", f"{type(e).__name__}: {e}")
    except Timeout as e: return R("timeout", str(e))
    except RecursionError: return R("unsupported", "recursion")


def _env(ev, d, vars, ty):
    ev.vtypes = {n: ev.rt(t, MOD, ty) for n, t, _ in d["params"]}
    return Env(vars, None, MOD, {}, ty)


def _check(world, cfg, path, timeout):
    ev = VEv(world, cfg)
    d = world.fn(path)
    if d["rets"]: return R("none", "returns a value")
    if not d["ensures"]: return R("none")
    ty = {t: ev.inst.get(t, ("tv", t)) for t in d["tps"]}
    vars = {n: ev.fresh(ev.rt(t, MOD, ty), n.split("~")[0]) for n, t, _ in d["params"]}
    env = _env(ev, d, vars, ty)
    pc = T
    for r in d["requires"]:
        pc = And(pc, ev.at(1, ev.B, r, env))
        if pc is F: break
    asm = list(ev.assume)
    if pc is F or solve([pc] + asm, timeout) is None: return R("vacuous", fns=ev.fns, part=ev.partial)
    n = 0
    late = []
    for i, en in enumerate(d["ensures"]):
        p0 = ev.partial
        try: g = And(pc, ev.at(-1, ev.B, en, env).neg)
        except (Unsupported, Blowup) as x:
            late.append(f"ensures #{i + 1}: {x}"); continue
        n += 1
        if g is F: continue
        m = solve([g] + ev.assume, timeout)
        if m is None: continue
        M = Model(m)
        r = R("refuted", f"ensures #{i + 1}", inputs={k: show(ev, M.conc(v)) for k, v in vars.items() if type(v) is not FnV})
        r.confirmed = confirm(ev, world, cfg, d, ty, M, vars, i, timeout)
        if r.confirmed or not (ev.partial > p0): 
            return r
        late.append(f"ensures #{i + 1}: a witness may lie outside the values tried")
    if late: return R("unsupported", "; ".join(late), done=n)
    return R("proved", f"{n} goals", fns=ev.fns, approx=ev.approx)


def confirm(ev, world, cfg, d, ty, M, vars, gi, timeout):
    """The concrete inputs satisfy the requires, and no choice of witnesses satisfies the failed ensures."""
    c2 = Cfg(**{**cfg.__dict__})
    c2.qint = (cfg.qint[0] - 2, cfg.qint[1] + 3)
    c2.maxuniv = max(cfg.maxuniv, 2000)
    c2.depth = 2 * cfg.depth + 2
    c2.seq, c2.nat, c2.int = cfg.seq + getattr(cfg, "cseq", 2), (cfg.nat[0], cfg.nat[1] + 3), (cfg.int[0], cfg.int[1] + 3)
    try:
        vv = {k: M.conc(v) for k, v in vars.items()}
        e2 = VEv(world, c2)
        e2.con = ev.con
        env = _env(e2, d, vv, ty)
        pc = AndL([e2.at(1, e2.B, r, env) for r in d["requires"]])
        if pc is F or solve([pc] + e2.assume, timeout) is None: return None
        e3 = VEv(world, c2)
        e3.con = ev.con
        env = _env(e3, d, vv, ty)
        g = e3.at(1, e3.B, d["ensures"][gi], env)
        if g is F: return "the inputs meet every requirement and evaluate the claim to false"
        if solve([g] + e3.assume, timeout) is None: return "the inputs meet every requirement and no witness satisfies the claim"
        return None
    except (Unsupported, Blowup, RecursionError, Timeout):
        return None
