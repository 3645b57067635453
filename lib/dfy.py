"""Bounded symbolic evaluator for the Dafny sources of the repository (expressions, functions, methods with a heap).

The program text is read from the tree under check each time.  Functions are evaluated over the guarded symbolic values of sv.py;
methods are executed with states merged at joins, loops unrolled up to a bound.  What a routine requires is assumed, what it
ensures is the assertion, or a harness written in Dafny states the assertion itself.
"""
import os, sys
import dfyparse
from sv import *
import sv


REPO = os.environ.get("VERIF_REPO", "/repo")


class Module:
    def __init__(self, name, decl, parent, world):
        self.name, self.decl, self.parent, self.world = name, decl, parent, world
        self.members, self.imports, self.sub = None, None, {}

    def __repr__(self):
        return f"module {self.name}"


class World:
    def __init__(self, roots, overrides=None):
        self.mods = {}
        self.top = Module("_", dict(k="module", name="_", refines=None, body=[], formals=[]), None, self)
        self.mods["_"] = self.top
        self.files = {}
        self.texts = []
        for r in roots: self.load(r)

    def load(self, path):
        path = os.path.normpath(path)
        if path in self.files: return
        self.files[path] = True
        incs, decls = dfyparse.parse_file(path)
        for i in incs: self.load(REPO + i[4:] if i.startswith("REPO/") else os.path.join(os.path.dirname(path), i))
        self.add(decls, None, path)

    def add(self, decls, parent, path):
        for d in decls:
            if d["k"] == "module":
                n = d["name"]
                m = Module(n if parent is None else parent.name + "." + n, d, parent, self)
                m.path = path
                if parent is None: self.mods[n] = m
                else: parent.sub[n] = m
                self.add([x for x in d["body"] if x["k"] == "module"], m, path)
            elif parent is None:
                d["path"] = path
                self.top.decl["body"].append(d)

    # ---- modules
    def find_module(self, path, scope, seen=()):
        """Module denoted by a dotted path in scope."""
        first = path[0]
        m = None
        s = scope
        im = s.decl_imports() if s is not None else {}
        if first in im and (s, first) not in seen:
            p, sc = im[first]
            m = self.find_module(p, sc, seen + ((s, first),)) if (p, sc) != (path, s) or p != [first] else None
            if m is None and p == [first]: m = self.outer(first, sc)
        if m is None:
            m = self.outer(first, s, False)
        if m is None and s is not None and hasattr(s, "opened") and (s, first) not in seen:
            for o in s.opened():
                if o == first: continue
                k = self.find_module([o], s, seen + ((s, first),))
                if k is None or k is s: continue
                if first in k.all_sub(): m = k.all_sub()[first]; break
                if first in k.decl_imports():
                    p, sc = k.decl_imports()[first]
                    m = self.find_module(p, sc, seen + ((s, first), (k, first)))
                    if m is not None: break
        if m is None: m = self.outer(first, s)
        if m is None: return None
        for x in path[1:]:
            if x in m.all_sub(): m = m.all_sub()[x]
            elif x in m.decl_imports():
                p, sc = m.decl_imports()[x]
                m = self.find_module(p, sc)
            else: return None
            if m is None: return None
        return m

    def outer(self, name, s, loose=True):
        while s is not None:
            if name in s.all_sub(): return s.all_sub()[name]
            s = s.parent
        m = self.mods.get(name)
        if m is None and loose:
            for k, v in self.mods.items():
                if k.endswith("." + name): return v
        return m

    def module(self, name):
        m = self.mods.get(name)
        if m is None: raise Unsupported("no module " + name)
        return m


def _base(self):
    b = self.decl.get("refines")
    if not b: return None
    if not hasattr(self, "_b"):
        self._b = self.world.outer(b[0], self.parent)
        for x in b[1:]:
            if self._b is not None: self._b = self._b.all_sub().get(x)
        if self._b is self: self._b = None
    return self._b


def _all_sub(self):
    b = self.base()
    return {**(b.all_sub() if b else {}), **self.sub}


def _decl_imports(self):
    if self.imports is None:
        b = self.base()
        self.imports = {}
        if b:
            self.imports.update(b.decl_imports())
        for d in self.decl["body"]:
            if d["k"] == "import":
                self.imports[d["name"]] = (d["path"], _ParentView(self) if d["path"] == [d["name"]] else self)
    return self.imports


class _ParentView:
    """Scope of an import that names a module by its own name."""
    def __init__(self, m): self.m = m
    def decl_imports(self): return {}
    def all_sub(self): return self.m.all_sub()
    @property
    def parent(self): return self.m.parent


def _opened(self):
    if not hasattr(self, "_op"):
        b = self.base()
        self._op = list(b.opened()) if b else []
        for d in self.decl["body"]:
            if d["k"] == "import" and d["opened"] and d["name"] not in self._op: self._op.append(d["name"])
    return self._op


def _mems(self):
    if self.members is None:
        b = self.base()
        ms = dict(b.mems()) if b else {}
        for d in self.decl["body"]:
            k = d["k"]
            if k in ("import", "module"): continue
            n = d["name"]
            o = ms.get(n)
            if o is not None and o["k"] == k and k in ("function", "method") and d.get("body") is None and o.get("body") is not None:
                d = {**o, "requires": o["requires"] + d["requires"], "ensures": o["ensures"] + d["ensures"]}
            elif o is not None and o["k"] == k and k in ("function", "method") and not d["params"] and o["params"]:
                d = {**d, "params": o["params"], "rets": o.get("rets"), "requires": o["requires"] + d["requires"], "ensures": o["ensures"] + d["ensures"],
                     "res": o.get("res"), "rty": o.get("rty")}
            elif o is not None and k in ("function", "method") and o["k"] == k and b is not None:
                # a refinement inherits the contract
                d = {**d, "requires": o["requires"] + d["requires"], "ensures": o["ensures"] + d["ensures"]}
            elif k == "datatype" and o is not None and not d["ctors"] and o["k"] == "datatype":
                d = {**o, "members": o["members"] + d["members"]}
            ms[n] = d
        self.members = ms
        self.ctors = {}
        for d in ms.values():
            if d["k"] == "datatype":
                for i, (cn, fs) in enumerate(d["ctors"]):
                    self.ctors.setdefault(cn, (d, i))
    return self.members


Module.base, Module.all_sub, Module.decl_imports, Module.opened, Module.mems = _base, _all_sub, _decl_imports, _opened, _mems


# ------------------------------------------------------------------ types
INT = ("int", None, None)
NAT = ("int", 0, None)
BOOL = ("bool",)
NATIVE = {}
for w in (8, 16, 32, 64):
    NATIVE[f"uint{w}"] = ("int", 0, 2 ** w - 1)
    NATIVE[f"int{w}"] = ("int", -2 ** (w - 1), 2 ** (w - 1) - 1)


class Cut(Exception):
    pass


def lit_bounds(d, ev):
    """Bounds of a newtype/subset condition of the form lo <= v < hi with constant bounds."""
    lo = hi = None
    c = d["cond"]
    v = d["var"]
    cs = c[1] if c and c[0] == "and" else [c] if c else []
    for x in cs:
        prs = []
        if x[0] == "chain": prs = [(o, x[2][i], x[2][i + 1]) for i, o in enumerate(x[1])]
        elif x[0] == "bin": prs = [x[1:]]
        else: return None
        for o, a, b in prs:
            if o in (">", ">="): o, a, b = {">": "<", ">=": "<="}[o], b, a
            if o not in ("<", "<="): return None
            if b == ("id", v):
                k = ev(a)
                if type(k) is not int: return None
                lo = k if o == "<=" else k + 1
            elif a == ("id", v):
                k = ev(b)
                if type(k) is not int: return None
                hi = k if o == "<=" else k - 1
            else: return None
    return lo, hi


class Env:
    __slots__ = ("vars", "this", "mod", "heap", "ty", "old", "cls", "pc")

    def __init__(self, vars, this, mod, heap, ty, old=None, cls=None, pc=T):
        self.vars, self.this, self.mod, self.heap, self.ty, self.old, self.cls, self.pc = vars, this, mod, heap, ty, old, cls, pc

    def sub(self, more):
        return Env({**self.vars, **more}, self.this, self.mod, self.heap, self.ty, self.old, self.cls, self.pc)


class NoVal(Exception):
    pass


class Cfg:
    """Bounds of an exploration."""
    def __init__(self, **k):
        self.seq = 3            # longest fresh sequence
        self.int = (-2, 5)      # fresh mathematical integers
        self.qint = (-2, 6)     # quantified integers with no bounds of their own
        self.nat = (0, 5)
        self.native = (0, 6)    # fresh native integers
        self.byte = (0, 2)
        self.opq = 3            # elements of an opaque type
        self.tv = 3
        self.depth = 3          # nesting of recursive datatypes
        self.setn = 4
        self.unroll = 10
        self.types = {}         # type name -> list of values or callable(name) -> symbolic value
        self.univ = {}          # type name -> list of concrete values
        self.over = {}          # "Module.fn" -> python function(args) or constant
        self.skip_req = set()
        self.maxuniv = 200
        self.recdepth = 40
        self.__dict__.update(k)


def contains_id(e, n):
    if type(e) is tuple:
        if len(e) == 2 and e[0] == "id": return e[1] == n
        return any(contains_id(x, n) for x in e)
    if type(e) is list: return any(contains_id(x, n) for x in e)
    return False


_ids_cache = {}


def ids_in(e):
    if type(e) not in (tuple, list): return frozenset()
    k = id(e)
    r = _ids_cache.get(k)
    if r is not None and r[0] is e: return r[1]
    if type(e) is tuple and len(e) == 2 and e[0] == "id": s = frozenset([e[1]])
    else:
        s = frozenset()
        for x in e: s |= ids_in(x)
    _ids_cache[k] = (e, s)
    return s


def conjs(e):
    if e is None: return []
    if e[0] == "and": return [y for x in e[1] for y in conjs(x)]
    return [e]


def antecedents(e):
    """Conjuncts whose failure makes e true."""
    if e[0] == "bin" and e[1] == "==>": return conjs(e[2]) + antecedents(e[3])
    if e[0] == "or":
        return [("un", "!", x) for x in e[1][:-1]]
    return []


POLK = frozenset(["and", "or", "un", "bin", "ite", "let", "match", "call", "forall", "exists", "chain", "paren", "inst", "letsuch"])


class Ev:
    def __init__(self, world, cfg):
        self.w, self.cfg = world, cfg
        self.con = {}           # con -> (decl, idx, module)
        self.memo = {}
        self.depth = {}
        self.assume = []        # side conditions on fresh values
        self.oblig = []         # (guard of failure, message)
        self.fns = {}           # functions evaluated: name -> count
        self.approx = set()
        self.nref = 0
        self.ufs = {}
        self.cnt = 0
        self.track = False
        self.tick = 0
        self.maxtick = 3_000_000
        self.refcls = {}
        self.cuts = []
        self.pol = 0
        self.hs = {}
        self.skolems = 0
        self.heap0 = {}

    # ---------------- names
    def lookup(self, mod, name):
        """(decl, module) of a member visible in mod."""
        d = mod.mems().get(name)
        if d is not None: return d, mod
        if name in mod.ctors: return ("ctor",) + mod.ctors[name], mod
        for o in mod.opened():
            m = self.w.find_module([o], mod)
            if m is None: continue
            d = m.mems().get(name)
            if d is not None and d["k"] != "import": return d, m
            if name in m.ctors: return ("ctor",) + m.ctors[name], m
        if mod is not self.w.top:
            d = self.w.top.mems().get(name)
            if d is not None: return d, self.w.top
            if name in self.w.top.ctors: return ("ctor",) + self.w.top.ctors[name], self.w.top
        return None, None

    def ctor_of(self, d, m, n, mod):
        """A name that is a type may also be a constructor."""
        if type(d) is dict and d["k"] in ("datatype", "synonym", "subset", "newtype", "opaque", "class", "import", "module"):
            if n in m.ctors: return ("ctor",) + m.ctors[n], m
            if n in mod.ctors: return ("ctor",) + mod.ctors[n], mod
            for o in mod.opened():
                k = self.w.find_module([o], mod)
                if k is not None and n in k.ctors: return ("ctor",) + k.ctors[n], k
        return d, m

    def dcon(self, d, mod, i):
        c = f"{mod.name}.{d['name']}.{d['ctors'][i][0]}"
        if c not in self.con: self.con[c] = (d, i, mod)
        return c

    def coninfo(self, c):
        return self.con.get(c)

    # ---------------- types
    def rt(self, t, mod, ty=None):
        """Resolve a type AST."""
        k = t[0]
        if k == "ttuple": return ("tuple", tuple(self.rt(x, mod, ty) for x in t[1]))
        if k == "tfun": return ("fun", tuple(self.rt(x, mod, ty) for x in t[1]), self.rt(t[2], mod, ty))
        names, args = t[1], t[2]
        n = names[-1]
        if len(names) == 1:
            if ty and n in ty: return ty[n]
            if n == "int": return INT
            if n == "nat": return NAT
            if n == "bool": return BOOL
            if n == "char": return ("char",)
            if n == "string": return ("seq", ("char",))
            if n == "real": return ("real",)
            if n == "ORDINAL": return NAT
            if n[:2] == "bv" and n[2:].isdigit(): return ("bv", int(n[2:]))
            if n in ("seq", "set", "iset", "multiset"): return (n, self.rt(args[0], mod, ty) if args else ("?",))
            if n in ("map", "imap"): return (n, self.rt(args[0], mod, ty), self.rt(args[1], mod, ty)) if args else (n, ("?",), ("?",))
            if n in ("array", "array?"): return ("arr", self.rt(args[0], mod, ty) if args else ("?",))
            if n == "object": return ("obj",)
        nn = n[:-1] if n.endswith("?") else n
        if len(names) > 1:
            m = self.w.find_module(names[:-1], mod)
            d, m = (m.mems().get(nn), m) if m else (None, None)
        else:
            d, m = self.lookup(mod, nn)
        if d is None or type(d) is tuple: return ("opaque", n)
        a = tuple(self.rt(x, mod, ty) for x in args)
        if d["k"] == "synonym":
            return self.rt(d["ty"], m, dict(zip(d["tps"], a)))
        if d["k"] in ("subset", "newtype"):
            if d["cond"] is None: return self.rt(d["base"], m, dict(zip(d["tps"], a)))
            base = self.rt(d["base"], m, dict(zip(d["tps"], a)))
            if base[0] == "int":
                b = d.get("_bounds", 0)
                if b == 0:
                    try: b = lit_bounds(d, lambda e: self.ev(e, Env({}, None, m, {}, {})))
                    except Unsupported: b = None
                    d["_bounds"] = b
                if b: 
                    lo = b[0] if b[0] is not None else base[1]
                    hi = b[1] if b[1] is not None else base[2]
                    return ("int", lo, hi, n)
            return ("subset", id(d), m.name, a, base, n)
        if d["k"] == "datatype": return ("data", n, m.name, a)
        if d["k"] in ("class",): return ("class", n, m.name, a)
        if d["k"] == "opaque": return ("opaque", n)
        return ("opaque", n)

    def ddecl(self, t):
        m = self.wmod(t[2])
        return m.mems()[t[1]], m

    def wmod(self, name):
        if name in self.w.mods: return self.w.mods[name]
        m = None
        for p in name.split("."):
            m = self.w.mods.get(p) if m is None else m.all_sub()[p]
        return m

    def cfg_type(self, t, table):
        names = []
        if t[0] == "data" or t[0] == "class": names = [t[1], f"{t[2]}.{t[1]}"]
        elif t[0] == "int" and len(t) > 3: names = [t[3]]
        elif t[0] == "subset": names = [t[5]]
        elif t[0] in ("opaque", "tv"): names = [t[1]]
        elif t[0] == "seq" and t[1][0] == "int" and len(t[1]) > 3: names = ["seq<" + t[1][3] + ">"]
        for n in reversed(names):
            if n in table: return table[n]
        return None

    def name(self, base):
        self.cnt += 1
        return f"{base}"

    noval = False       # whether a type without values of the depth left is dropped where it occurs (rather than arbitrary)

    def fresh(self, t, nm, depth=None):
        c = self.cfg
        if depth is None: depth = c.depth
        o = self.cfg_type(t, c.types)
        if o is not None:
            return o(nm, self) if callable(o) else fresh_of(nm, o)
        k = t[0]
        if k == "int":
            lo, hi = t[1], t[2]
            if lo is None and hi is None: return fresh_int(nm, *c.int)
            if hi is None: return fresh_int(nm, max(lo, c.nat[0]), max(lo, c.nat[1]))
            if lo is None: return fresh_int(nm, min(hi, c.int[0]), hi)
            if len(t) > 3 and hi - lo > 20 and c.native is not None:
                b = c.byte if hi == 255 else c.native
                lo, hi = max(lo, b[0]) if lo >= 0 else max(lo, -b[1]), min(hi, b[1])
            return fresh_int(nm, lo, hi)
        if k == "bool": return fresh_bool(nm)
        if k == "char": return fresh_int(nm, 97, 99)
        if k == "bv": return mkBv(t[1], fresh_int(nm, 0, 2 ** t[1] - 1))
        if k == "opaque": return fresh_int(nm, 0, c.opq - 1)
        if k == "tv": return fresh_int(nm, 0, c.tv - 1)
        if k == "tuple": return mkD("#tuple", [self.fresh(x, f"{nm}.{i}", depth) for i, x in enumerate(t[1])])
        if k == "seq":
            try: return fresh_seq(nm, c.seq, lambda n: self.fresh(t[1], n, depth))
            except NoVal: return mkSeq([])
        if k in ("set", "iset"):
            us = self.universe(t[1])
            return mkSet({u: fresh_bool(f"{nm}.has({u})") for u in us})
        if k in ("map", "imap"):
            us = self.universe(t[1])
            try: return mkMap({u: (fresh_bool(f"{nm}.has({u})"), self.fresh(t[2], f"{nm}[{u}]", depth)) for u in us})
            except NoVal: return mkMap({})
        if k == "multiset":
            return mkMSet({u: fresh_int(f"{nm}.count({u})", 0, 2) for u in self.universe(t[1])})
        if k == "subset":
            v = self.fresh(t[4], nm, depth)
            self.assume.append(self.member(t, v))
            return v
        if k == "data":
            d, m = self.ddecl(t)
            tys = dict(zip(d["tps"], t[3]))
            out = []
            for i, (cn, fs) in enumerate(d["ctors"]):
                ts = [self.rt(ft, m, tys) for _, ft in fs]
                if depth <= 0 and any(self.mentions(x, t) for x in ts): continue
                if any(x[0] in ("class", "arr", "obj", "real") for x in ts): continue
                out.append((i, cn, fs, ts))
            vs = []
            for i, cn, fs, ts in out:
                rec = any(self.mentions(x, t) for x in ts)
                try:
                    vs.append(mkD(self.dcon(d, m, i), [self.fresh(x, f"{nm}.{fs[j][0] or j}" if len(out) == 1 else f"{nm}.{cn}.{fs[j][0] or j}",
                                                                  depth - 1 if rec else depth) for j, x in enumerate(ts)]))
                except NoVal: pass
            if not vs:
                if self.noval: raise NoVal()
                return ARB
            return merge_list(list(zip(choice(nm + ".ctor", len(vs)), vs)))
        if k == "fun":
            memo = {}

            def f(*a):
                r = []
                cs = [cases(x) for x in a]
                for combo in itertools.product(*cs):
                    g = AndL([q[0] for q in combo])
                    if g is F: continue
                    key = tuple(_k(q[1]) for q in combo)
                    if key not in memo: memo[key] = self.fresh(t[2], f"{nm}({','.join(str(q[1]) for q in combo)})", depth)
                    r.append((g, memo[key]))
                return merge_list(r)
            return mkFn(f, nm)
        if k == "arr":
            o = self.alloc(None)
            self.heap0[(o.n, "#")] = fresh_seq(nm, c.seq, lambda n: self.fresh(t[1], n, depth))
            return o
        if k == "class":
            d, m = self.ddecl(t)
            if d["body"] is None if "body" in d else False: raise Unsupported("abstract class " + t[1])
            o = self.alloc((d, m, dict(zip(d["tps"], t[3]))))
            tys = dict(zip(d["tps"], t[3]))
            for x in d["members"]:
                if x["k"] == "field":
                    if depth <= 0: raise Unsupported("nested objects")
                    self.heap0[(o.n, x["name"])] = self.fresh(self.rt(x["ty"], m, tys), f"{nm}.{x['name']}", depth - 1)
            return o
        raise Unsupported(f"fresh value of type {t[0]} {t[1] if len(t) > 1 else ''}")

    def mentions(self, t, d, seen=()):
        """type t can contain a value of datatype d"""
        if t[0] == "data":
            if t[1] == d[1] and t[2] == d[2]: return True
            key = (t[1], t[2])
            if key in seen: return False
            dd, m = self.ddecl(t)
            tys = dict(zip(dd["tps"], t[3]))
            return any(self.mentions(self.rt(ft, m, tys), d, seen + (key,)) for _, fs in dd["ctors"] for _, ft in fs)
        if t[0] == "subset": return self.mentions(t[4], d, seen)
        return any(self.mentions(x, d, seen) for x in t[1:] if type(x) is tuple and x and type(x[0]) is str) or (
            t[0] in ("tuple", "fun") and any(self.mentions(x, d, seen) for x in t[1]))

    def universe(self, t, depth=None):
        c = self.cfg
        if depth is None: depth = c.depth
        o = self.cfg_type(t, c.univ)
        if o is not None: return list(o(self)) if callable(o) else list(o)
        o = self.cfg_type(t, c.types)
        if o is not None and not callable(o): return list(o)
        k = t[0]
        if k == "int":
            lo, hi = t[1], t[2]
            if lo is None: lo = c.qint[0]
            if hi is None: hi = c.qint[1] if lo is None or lo <= c.qint[1] else lo
            if hi - lo > 300:
                b = c.byte if hi == 255 else c.native or (0, 6)
                lo, hi = max(lo, b[0]), min(hi, b[1])
            elif len(t) > 3 and hi == 255:
                lo, hi = c.byte
            return list(range(lo, hi + 1))
        if k == "bool": return [F, T]
        if k == "char": return [97, 98, 99]
        if k == "opaque": return list(range(c.opq))
        if k == "tv": return list(range(c.tv))
        if k == "tuple":
            return self.cap([mkD("#tuple", x) for x in self.prod([self.universe(x, depth) for x in t[1]])])
        if k == "seq":
            us = self.universe(t[1], depth)
            out = []
            for n in range(c.seq + 1):
                out += [mkSeq(x) for x in self.prod([us] * n)]
                self.cap(out)
            return out
        if k in ("set", "iset"):
            us = self.universe(t[1], depth)
            self.cap([None] * 2 ** min(len(us), 20))
            return [mkSet({u: T for i, u in enumerate(us) if b >> i & 1}) for b in range(2 ** len(us))]
        if k in ("map", "imap"):
            ks, vs = self.universe(t[1], depth), self.universe(t[2], depth)
            self.cap([None] * min(10 ** 6, (len(vs) + 1) ** len(ks)))
            return [mkMap({a: (T, b) for a, b in zip(ks, x) if b is not None}) for x in itertools.product([None] + vs, repeat=len(ks))]
        if k == "subset":
            return [v for v in self.universe(t[4], depth) if self.member(t, v) is T]
        if k == "data":
            d, m = self.ddecl(t)
            tys = dict(zip(d["tps"], t[3]))
            out = []
            for i, (cn, fs) in enumerate(d["ctors"]):
                ts = [self.rt(ft, m, tys) for _, ft in fs]
                rec = any(self.mentions(x, t) for x in ts)
                if depth <= 0 and rec: continue
                out += [mkD(self.dcon(d, m, i), x) for x in self.prod([self.universe(x, depth - 1 if rec else depth) for x in ts])]
                self.cap(out)
            return out
        raise Unsupported(f"universe of type {t[0]}")

    def prod(self, xs):
        n = 1
        for x in xs: n *= len(x)
        if n > self.cfg.maxuniv * 20: raise Blowup("universe")
        return itertools.product(*xs)

    def cap(self, xs):
        if len(xs) > self.cfg.maxuniv: raise Blowup("universe")
        return xs

    def member(self, t, v):
        """Type invariant of v."""
        if t[0] == "subset":
            m = self.wmod(t[2])
            d = m.mems()[t[5].rstrip("?")] if t[5].rstrip("?") in m.mems() else None
            if d is None: return T
            return And(self.member(t[4], v), self.ev(d["cond"], Env({d["var"]: v}, None, m, {}, dict(zip(d["tps"], t[3])))))
        if t[0] == "int" and isI(v):
            r = T
            if t[1] is not None: r = And(r, ile(t[1], v))
            if t[2] is not None: r = And(r, ile(v, t[2]))
            return r
        return T

    # ---------------- expressions
    def B(self, e, env):
        r = self.ev(e, env)
        if type(r) is U: r = merge_list([(g, v if v is not ARB else arb_bool()) for g, v in r.alts])
        if r is ARB: return arb_bool()
        if type(r) is not Tm or not r.isb: raise Unsupported(f"not a Boolean: {str(e)[:60]} -> {str(r)[:60]}")
        return r

    def ev(self, e, env):
        self.tick += 1
        if self.tick > self.maxtick: raise Blowup("evaluation steps")
        k = e[0]
        h = self.hs.get(k)
        if h is None: h = self.hs[k] = getattr(self, "e_" + k.replace("?", "_").replace("!", ""), self.e_unknown)
        if self.pol and k not in POLK:
            p, self.pol = self.pol, 0
            try: return h(e, env)
            finally: self.pol = p
        return h(e, env)

    def at(self, p, f, *a):
        """Evaluate in polarity p (1: assumed, -1: to be refuted, 0: either)."""
        q, self.pol = self.pol, p
        try: return f(*a)
        finally: self.pol = q

    def ev0(self, e, env): return self.at(0, self.ev, e, env) if self.pol else self.ev(e, env)

    def B0(self, e, env): return self.at(0, self.B, e, env) if self.pol else self.B(e, env)

    def e_unknown(self, e, env):
        raise Unsupported("expression " + str(e[0]))

    def e_num(self, e, env):
        if type(e[1]) is not int: raise Unsupported("real")
        return e[1]

    def e_str(self, e, env): return mkSeq([ord(c) for c in e[1]])
    def e_chr(self, e, env): return ord(e[1])
    def e_bool(self, e, env): return T if e[1] else F
    def e_null(self, e, env): return mkRef(0)

    def e_this(self, e, env):
        if env.this is None: raise Unsupported("this")
        return env.this

    def e_old(self, e, env):
        return self.ev(e[1], Env(env.vars, env.this, env.mod, env.old if env.old is not None else env.heap, env.ty, env.old, env.cls, env.pc))

    def e_fresh(self, e, env): return T
    def e_allocated(self, e, env): return T
    def e_unchanged(self, e, env): return T

    def e_inout(self, e, env): return self.ev(e[1], env)

    def e_inst(self, e, env): return self.ev(e[1], env)

    def e_tuple(self, e, env): return mkD("#tuple", [self.ev(x, env) for x in e[1]])

    def e_id(self, e, env):
        n = e[1]
        v = env.vars.get(n)
        if v is not None: return v
        if n == "self" and env.this is not None: return env.this
        if env.cls is not None:
            r = self.member_of_this(n, env)
            if r is not None: return r
        d, m = self.lookup(env.mod, n)
        d, m = self.ctor_of(d, m, n, env.mod)
        if d is None: raise Unsupported("name " + n)
        return self.use(d, m, env, n)

    def member_of_this(self, n, env):
        d = env.cls
        if d["k"] == "datatype":
            for i, (cn, fs) in enumerate(d["ctors"]):
                for fn, _ in fs:
                    if fn == n: return self.dot(env.this, n, env)
        for x in d["members"]:
            if x["name"] == n and (x["k"] == "field" or x["k"] == "const"):
                if x["k"] == "const" and x["e"] is not None:
                    return self.ev(x["e"], Env({}, env.this, env.mod, env.heap, env.ty, env.old, env.cls, env.pc))
                return self.hget(env.this, n, env)
            if x["name"] == n and x["k"] == "function":
                th = env.this
                return mkFn(lambda *a: self.call(x, env.mod, th, list(a), env, cls=d), n)
        return None

    def use(self, d, m, env, n):
        """Value of a module-level name used as an expression."""
        if type(d) is tuple:
            _, dd, i = d
            fs = dd["ctors"][i][1]
            c = self.dcon(dd, m, i)
            if not fs: return mkD(c, ())
            return mkFn(lambda *a: mkD(c, a), n)
        q = f"{m.name}.{n}"
        if q in self.cfg.over and not callable(self.cfg.over[q]): return self.cfg.over[q]
        if d["k"] == "const":
            key = ("const", id(d), m.name)
            r = self.memo.get(key)
            if r is None:
                if d["e"] is not None: r = self.ev(d["e"], Env({}, None, m, {}, {}))
                else: r = self.fresh(self.rt(d["ty"], m), n)
                self.memo[key] = r
            return r
        if d["k"] == "function":
            return mkFn(lambda *a: self.call(d, m, None, list(a), env), n)
        raise Unsupported("use of " + n)

    def e_len(self, e, env):
        return self.length(self.ev(e[1], env))

    def length(self, v):
        t = type(v)
        if t is U: return merge_list([(g, self.length(x)) for g, x in v.alts])
        if t is SeqV: return len(v.es)
        if t in (SetV, LSet): return set_len(v)
        if t in (MapV, LMap): return set_len(map_dom(v))
        if t is MSetV: return ms_len(v)
        if v is ARB: return ARB
        raise Unsupported("cardinality of " + t.__name__)

    def e_seq(self, e, env): return mkSeq([self.ev(x, env) for x in e[1]])

    def e_setd(self, e, env): return set_from([(T, self.ev(x, env)) for x in e[1]])

    def e_msd(self, e, env): return ms_from([(self.ev(x, env), 1) for x in e[1]])

    def e_mset(self, e, env):
        v = self.ev(e[1], env)

        def f(v):
            if type(v) is SeqV: return ms_from([(x, 1) for x in v.es])
            if type(v) in (SetV, LSet):
                s = set_mat(v)
                return ms_from([(x, ite(g, 1, 0)) for x, g in s.m.items()])
            if v is ARB: return ARB
            raise Unsupported("multiset of")
        return lift(f, v)

    def e_mapd(self, e, env):
        return map_from([(T, self.ev(a, env), self.ev(b, env)) for a, b in e[1]])

    def e_un(self, e, env):
        if e[1] == "!" and self.pol:
            return self.at(-self.pol, self.B, e[2], env).neg
        if e[1] == "!":
            v = self.ev(e[2], env)
            if type(v) is Bv: return mkBv(v.w, bvop("not", v.w, v.t))
            if v is ARB: return arb_bool()
            if type(v) is U: v = self.B(e[2], env)
            return v.neg
        v = self.ev(e[2], env)
        if v is ARB: return ARB
        if type(v) is Bv: return mkBv(v.w, imod(imul(-1, v.t), 1 << v.w))
        return lift(lambda x: ARB if x is ARB else imul(-1, x), v)

    def e_and(self, e, env):
        r = T
        for x in e[1]:
            r = And(r, self.B(x, env))
            if r is F: return F
        return r

    def e_or(self, e, env):
        r = F
        for x in e[1]:
            r = Or(r, self.B(x, env))
            if r is T: return T
        return r

    def e_bin(self, e, env):
        op = e[1]
        if op == "==>":
            a = self.at(-self.pol, self.B, e[2], env) if self.pol else self.B(e[2], env)
            if a is F: return T
            return Implies(a, self.B(e[3], env))
        if self.pol: return self.at(0, self.e_bin, e, env)
        if op == "<==>": return Iff(self.B(e[2], env), self.B(e[3], env))
        return self.binop(op, self.ev(e[2], env), self.ev(e[3], env))

    def e_chain(self, e, env):
        if self.pol: return self.at(0, self.e_chain, e, env)
        vs = [self.ev(x, env) for x in e[2]]
        r = T
        if e[1][0] == "!!":
            for i in range(len(vs)):
                for j in range(i): r = And(r, self.disjoint(vs[i], vs[j]))
            return r
        for i, o in enumerate(e[1]):
            r = And(r, self.binop(o, vs[i], vs[i + 1]))
            if r is F: return F
        return r

    def kind(self, v):
        t = type(v)
        if t is U:
            for _, x in v.alts:
                if x is not ARB: return self.kind(x)
            return None
        if t is int or t is Tm: return "int"
        if t is SeqV: return "seq"
        if t in (SetV, LSet): return "set"
        if t in (MapV, LMap): return "map"
        if t is MSetV: return "ms"
        if t is Bv: return "bv"
        if t is D: return "d"
        return None

    def binop(self, op, a, b):
        if op == "==": return self.eqv(a, b)
        if op == "!=": return self.eqv(a, b).neg
        if op == "in": return self.isin(a, b)
        if op == "!in": return self.isin(a, b).neg
        k = self.kind(a) or self.kind(b)
        if a is ARB or b is ARB or k is None:
            return arb_bool() if op in ("<", "<=", ">", ">=", "!!") else ARB
        kb = self.kind(b)
        if k == "int":
            if kb == "bv" and op in ("<<", ">>"): b, kb = b.t, "int"
            elif kb == "bv" and type(b) is Bv: return self.binop(op, mkBv(b.w, a), b)
            if type(a) is U or type(b) is U: return lift(lambda x, y: self.binop(op, x, y), a, b)
            if op == "+": return iadd(a, b)
            if op == "-": return isub(a, b)
            if op == "*": return imul(a, b)
            if op == "/": return idiv(a, b)
            if op == "%": return imod(a, b)
            if op == "<": return ilt(a, b)
            if op == "<=": return ile(a, b)
            if op == ">": return ilt(b, a)
            if op == ">=": return ile(b, a)
        if k == "seq":
            if op == "+": return seq_cat(a, b)
            if op in ("<=", "<"):
                def pre(x, y):
                    if len(x.es) > len(y.es) or (op == "<" and len(x.es) == len(y.es)): return F
                    return AndL([self.eqv(p, q) for p, q in zip(x.es, y.es)])
                return lift(pre, a, b)
        if k == "set" and kb == "set":
            if op in "+-*": return set_bin(a, b, op)
            if op == "<=": return set_subset(a, b)
            if op == ">=": return set_subset(b, a)
            if op == "<": return And(set_subset(a, b), set_subset(b, a).neg)
            if op == ">": return And(set_subset(b, a), set_subset(a, b).neg)
            if op == "!!": return self.disjoint(a, b)
        if k == "ms":
            if op in "+-*": return ms_bin(a, b, op)
            if op == "<=": return ms_sub(a, b)
            if op == ">=": return ms_sub(b, a)
            if op == "<": return And(ms_sub(a, b), ms_sub(b, a).neg)
            if op == ">": return And(ms_sub(b, a), ms_sub(a, b).neg)
        if k == "map":
            if op == "+": return map_union(a, b)
            if op == "-":
                return map_restrict(a, lambda x: set_has(b, x).neg)
            if op == "!!": return self.disjoint(map_dom(a), map_dom(b))
        if k == "bv":
            w = a.w
            bt = b.t if type(b) is Bv else b
            M = 1 << w
            if op == "&": return mkBv(w, bvop("and", w, a.t, bt))
            if op == "|": return mkBv(w, bvop("or", w, a.t, bt))
            if op == "^": return mkBv(w, bvop("xor", w, a.t, bt))
            if op == "<<": return mkBv(w, bvop("shl", w, a.t, bt))
            if op == ">>": return mkBv(w, bvop("lshr", w, a.t, bt))
            if op == "+": return mkBv(w, imod(iadd(a.t, bt), M))
            if op == "-": return mkBv(w, imod(isub(a.t, bt), M))
            if op == "*": return mkBv(w, imod(imul(a.t, bt), M))
            if op == "/": return mkBv(w, idiv(a.t, bt))
            if op == "%": return mkBv(w, imod(a.t, bt))
            if op == "<": return ilt(a.t, bt)
            if op == "<=": return ile(a.t, bt)
            if op == ">": return ilt(bt, a.t)
            if op == ">=": return ile(bt, a.t)
        raise Unsupported(f"operator {op} on {k}")

    def disjoint(self, a, b):
        if a is ARB or b is ARB: return arb_bool()
        return AndL([And(set_has(a, x), set_has(b, x)).neg for x in dedup(list(set_univ(a)))])

    def eqv(self, a, b):
        return eq(a, b)

    def isin(self, x, s):
        t = type(s)
        if s is ARB: return arb_bool()
        if t is U: return OrL([And(g, self.isin(x, v)) for g, v in s.alts])
        if t is SeqV: return seq_has(s, x)
        if t in (SetV, LSet): return set_has(s, x)
        if t in (MapV, LMap): return map_has(s, x)
        if t is MSetV: return ilt(0, ms_count(s, x))
        raise Unsupported("membership in " + t.__name__)

    def e_ite(self, e, env):
        if e[1][0] == "such?":
            if self.pol: return self.at(0, self.e_ite, e, env)
            _, vs, cond = e[1]
            r = self.choose(vs, cond, env, e[2])
            ex, val = r
            if ex is F: return self.ev(e[3], env)
            return val if ex is T else merge(ex, val, self.ev(e[3], env))
        c = self.B0(e[1], env)
        if c is T: return self.ev(e[2], env)
        if c is F: return self.ev(e[3], env)
        a = self.ev(e[2], env)
        b = self.ev(e[3], env)
        return merge(c, a, b)

    def e_let(self, e, env):
        _, pats, es, body = e
        vs = [self.ev0(x, env) for x in es]
        new = {}
        if len(pats) > 1 and len(vs) == 1 and type(vs[0]) is D and vs[0].con == "#tuple": vs = list(vs[0].fs)
        for p, v in zip(pats, vs): self.bind(p, v, new, env)
        return self.ev(body, env.sub(new))

    def bind(self, p, v, new, env):
        """Irrefutable pattern."""
        if p[0] == "pv":
            new[p[1]] = v
            if p[1] == "_": new.pop("_")
        elif p[0] == "ptup":
            for i, q in enumerate(p[1]): self.bind(q, field(v, None, i), new, env)
        elif p[0] == "pc":
            for i, q in enumerate(p[2]): self.bind(q, self.cfield(v, p[1], i), new, env)
        else: raise Unsupported("pattern")

    def cfield(self, v, cn, i):
        return merge_list([(g, w.fs[i]) for g, w in alts(v) if type(w) is D and w.con.rsplit(".", 1)[-1] == cn])

    def match1(self, p, v, new, env):
        """Guard under which v matches p; binds names."""
        if p[0] == "pv":
            if p[2] is None:       # nullary constructor or binder
                for g, w in alts(v):
                    if type(w) is D and w.con != "#tuple":
                        d, i, m = self.con[w.con]
                        if any(cn == p[1] and not fs for cn, fs in d["ctors"]):
                            return OrL([g for g, w in alts(v) if type(w) is D and w.con.rsplit(".", 1)[-1] == p[1]])
                        break
            if p[1] != "_": new[p[1]] = v
            return T
        if p[0] == "plit":
            return eq(v, BC(p[1]) if type(p[1]) is bool else p[1])
        if p[0] == "ptup":
            r = T
            for i, q in enumerate(p[1]): r = And(r, self.match1(q, field(v, None, i), new, env))
            return r
        r = OrL([g for g, w in alts(v) if type(w) is D and w.con.rsplit(".", 1)[-1] == p[1]])
        if v is ARB: r = arb_bool()
        if r is F: return F
        for i, q in enumerate(p[2]): r = And(r, self.match1(q, self.cfield(v, p[1], i), new, env))
        return r

    def e_match(self, e, env):
        v = self.ev0(e[1], env)
        out, rest = [], T
        for p, b in e[2]:
            new = {}
            g = And(rest, self.match1(p, v, new, env))
            if g is F: continue
            out.append((g, self.ev(b, env.sub(new))))
            rest = And(rest, g.neg)
            if rest is F: break
        return merge_list(out)

    # ---- quantifiers
    def candidates(self, n, ty, cs, env, pending, whole):
        """Guarded candidate values for bound variable n from the conjuncts cs; None if it must wait."""
        lo = hi = None
        for c in cs:
            prs = []
            if c[0] == "bin": prs = [c[1:]]
            elif c[0] == "chain": prs = [(o, c[2][i], c[2][i + 1]) for i, o in enumerate(c[1])]
            elif c[0] == "un" and c[1] == "!" and c[2][0] == "bin":
                o = {"!in": "in", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}.get(c[2][1])
                if o: prs = [(o,) + c[2][2:]]
            for o, a, b in prs:
                if o == "in" and a == ("id", n) and not (ids_in(b) & pending):
                    s = self.ev(b, env)
                    try:
                        return self.members(s)
                    except Unsupported:
                        continue
                if o == "==" and (a == ("id", n) or b == ("id", n)):
                    x = b if a == ("id", n) else a
                    if not (ids_in(x) & pending): return [(T, self.ev(x, env))]
                if o in ("<", "<=", ">", ">="):
                    if o in (">", ">="): o, a, b = {">": "<", ">=": "<="}[o], b, a
                    if b == ("id", n) and not (ids_in(a) & pending):
                        v = self.ev(a, env)
                        l = self.bound(v, 0)
                        if l is not None:
                            l += o == "<"
                            lo = l if lo is None else max(lo, l)
                    elif a == ("id", n) and not (ids_in(b) & pending):
                        v = self.ev(b, env)
                        h = self.bound(v, 1)
                        if h is not None:
                            h -= o == "<"
                            hi = h if hi is None else min(hi, h)
        if hi is not None and lo is None and ty is not None:
            t = self.rt(ty, env.mod, env.ty)
            if t[0] == "int" and t[1] is not None and hi - t[1] <= 600: lo = t[1]
        if hi is not None and lo is None and ty is None: lo = min(0, hi)
        if lo is not None and hi is None and ty is not None:
            t = self.rt(ty, env.mod, env.ty)
            if t[0] == "int" and t[2] is not None and t[2] - lo < 300: hi = t[2]
        if lo is not None and hi is not None:
            if hi - lo > 600: raise Blowup("quantifier range")
            return [(T, k) for k in range(lo, hi + 1)]
        return None

    def bound(self, v, hi):
        if type(v) is Bv: v = v.t
        if type(v) is int: return v
        if type(v) is Tm and not v.isb:
            vs = leaves(v)
            if vs: return vs[-1] if hi else vs[0]
            return v.hi if hi else v.lo
        return None

    def members(self, s):
        t = type(s)
        if s is ARB: return []
        if t is U:
            acc = {}
            for g, v in s.alts:
                for h, x in self.members(v):
                    q = And(g, h)
                    k = _k(x)
                    acc[k] = (Or(acc[k][0], q), x) if k in acc else (q, x)
            return list(acc.values())
        if t is SeqV: return [(T, x) for x in dedup(s.es)]
        if t is SetV: return [(g, x) for x, g in s.m.items()]
        if t is LSet: return [(s.pred(x), x) for x in s.univ()]
        if t is MapV: return [(g, x) for x, (g, _) in s.m.items()]
        if t is LMap: return [(s.dom(x), x) for x in s.univ()]
        if t is MSetV: return [(ilt(0, n), x) for x, n in s.m.items()]
        raise Unsupported("members of " + t.__name__)

    def expand(self, vs, cs, env, whole):
        """All (guard, env) over the bound variables vs; cs are conjuncts that restrict them, whole the expression for type inference."""
        out = []

        def go(left, env, g):
            if not left:
                out.append((g, env)); return
            pend = frozenset(n for n, _ in left)
            for i, (n, ty) in enumerate(left):
                c = self.candidates(n, ty, cs, env, pend, whole)
                if c is not None:
                    rest = left[:i] + left[i + 1:]
                    for h, v in c:
                        q = And(g, h)
                        if q is F: continue
                        e2 = env.sub({n: v})
                        # cheap pruning by the conjuncts decided so far
                        if rest or len(c) > 1:
                            pend2 = frozenset(n for n, _ in rest)
                            dead = False
                            for x in cs:
                                if contains_id(x, n) and not (ids_in(x) & pend2) and len(rest):
                                    try:
                                        if self.B(x, e2) is F: dead = True; break
                                    except (Unsupported,): pass
                            if dead: continue
                        go(rest, e2, q)
                    return
            n, ty = left[0]
            t = self.rt(ty, env.mod, env.ty) if ty is not None else None
            if t is None or t[0] == "?":
                us = self.infer_univ(n, whole, env, pend)
            else:
                us = self.universe(t)
                if t[0] == "int" and (t[1] is None or t[2] is None or t[2] - t[1] > 300): self.approx.add("integers quantified without bounds")
            for u in us: go(left[1:], env.sub({n: u}), g)
        go(list(vs), env, T)
        return out

    # ---- static types of expressions, for the universes of untyped bound variables
    def scope_of(self, whole, env):
        sc = self.w.__dict__.setdefault("scopes", {})
        done = self.w.__dict__.setdefault("scoped", {})

        def walk(e, scope):
            if type(e) is list:
                for x in e: walk(x, scope)
                return
            if type(e) is dict:
                for x in e.values():
                    if type(x) in (list, tuple, dict): walk(x, scope)
                return
            if type(e) is not tuple or not e: return
            k = e[0]
            if k in ("forall", "exists", "setc", "mapc", "letsuch") and len(e) > 2:
                prs = [(x[1], x[2]) for x in e[1] if x[0] == "pv"] if k == "letsuch" else [x[:2] for x in e[1]]
                scope = {**scope, **{n: t for n, t in prs}}
            if k == "let" and len(e[1]) == len(e[2]):
                scope = {**scope, **{q[1]: (q[2] if len(q) > 2 and q[2] is not None else ("#e", x, scope)) for q, x in zip(e[1], e[2]) if q[0] == "pv"}}
            if id(e) not in sc: sc[id(e)] = scope
            for x in e[1:]: walk(x, scope)

        def decl(d):
            if id(d) in done: return
            done[id(d)] = d
            scope = {q[0]: q[1] for q in d.get("params", ())}
            for q in d.get("rets", ()) or (): scope[q[0]] = q[1]
            for f in ("requires", "ensures", "body", "e"):
                if d.get(f) is not None: walk(d[f], scope)
        for x in whole:
            if type(x) is tuple and id(x) in sc: return sc[id(x)]
        for m in (env.mod,):
            for d in list(m.mems().values()):
                if type(d) is not dict: continue
                if d["k"] in ("datatype", "class"):
                    for x in d["members"]: decl(x)
                else: decl(d)
        for x in whole:
            if type(x) is tuple and id(x) in sc: return sc[id(x)]
        return None

    def styp(self, e, sc, env):
        k = e[0]
        if k == "id":
            t = sc.get(e[1])
            if t is None:
                if env.cls is not None and env.cls["k"] == "datatype":
                    for _, fs in env.cls["ctors"]:
                        for f, ft in fs:
                            if f == e[1]: return self.rt(ft, env.mod, env.ty)
                return None
            if t[0] == "#e": return self.styp(t[1], t[2], env)
            return self.rt(t, env.mod, env.ty)
        if k == "dot":
            b = self.styp(e[1], sc, env)
            if b is None: return None
            if b[0] == "subset": b = b[4]
            if b[0] == "data":
                d, m = self.ddecl(b)
                for _, fs in d["ctors"]:
                    for f, ft in fs:
                        if f == e[2]: return self.rt(ft, m, dict(zip(d["tps"], b[3])))
            if b[0] in ("map", "imap") and e[2] in ("Keys", "Values"): return ("set" if b[0] == "map" else "iset", b[1 if e[2] == "Keys" else 2])
            return None
        if k == "index":
            b = self.styp(e[1], sc, env)
            if b is None: return None
            if b[0] == "subset": b = b[4]
            if b[0] in ("map", "imap"): return b[2]
            if b[0] in ("seq", "arr"): return b[1]
            return None
        if k == "call":
            f = self.callee(e[1], env)
            if f is None or type(f[0]) is not dict: return None
            d = f[0]
            t = d.get("rty")
            if t is None or type(t) is not tuple or d["tps"]: return None
            return self.rt(t, f[1], {})
        if k == "paren": return self.styp(e[1], sc, env)
        if k == "sequpd": return self.styp(e[1], sc, env)
        if k == "ite": return self.styp(e[2], sc, env) or self.styp(e[3], sc, env)
        return None

    def elem_type(self, e, whole, env):
        sc = self.scope_of(whole, env)
        if sc is None: return None
        try: t = self.styp(e, sc, env)
        except (Unsupported, KeyError, TypeError): return None
        if t is not None and t[0] == "subset": t = t[4]
        if t is None or t[0] not in ("map", "imap", "set", "iset", "seq", "multiset") or t[1][0] in ("?",): return None
        return t[1]

    def infer_type(self, n, whole, env, pend): return self.infer_univ(n, whole, env, pend, True)

    def infer_univ(self, n, whole, env, pend, typ=False):
        """Universe of an untyped bound variable from how it is used."""
        found = []
        vals = []
        fallback = []

        def visit(e, bound):
            if found: return
            if type(e) is list:
                for x in e: visit(x, bound)
                return
            if type(e) is not tuple or not e: return
            if e[0] in ("bin", "chain"):
                prs = [e[1:]] if e[0] == "bin" else [(o, e[2][i], e[2][i + 1]) for i, o in enumerate(e[1])]
                for o, a, b in prs:
                    if o in ("in", "!in") and a == ("id", n):
                        t = self.elem_type(b, whole, env)
                        if t is not None: fallback.append(t)
                    if o in ("in", "!in") and a == ("id", n) and not (ids_in(b) & (pend | bound)):
                        try: vals.extend(x for _, x in self.members(self.ev(b, env)))
                        except Unsupported: pass
                    if o in ("<", "<=", ">", ">=", "+", "-") and (a == ("id", n) or b == ("id", n)):
                        found.append(INT); return
            if e[0] == "index" and e[2] == ("id", n) and not (ids_in(e[1]) & (pend | bound)):
                try:
                    v = self.ev(e[1], env)
                    if self.kind(v) == "map": vals.extend(x for _, x in self.members(v))
                    elif self.kind(v) == "seq": vals.extend(range(0, max([len(w.es) for _, w in alts(v) if type(w) is SeqV] + [0])))
                except Unsupported: pass
            if e[0] == "call":
                f = self.callee(e[1], env)
                if f is not None:
                    d, m, this = f[0], f[1], f[2]
                    ps = d["params"] if type(d) is dict else [(x, y, []) for x, y in d[1]["ctors"][d[2]][1]]
                    for (pn, pt, *_), a in zip(ps, e[2]):
                        if a == ("id", n) and pt is not None:
                            t = self.rt(pt, m, env.ty if type(d) is dict else {})
                            if t[0] == "opaque" and type(d) is dict and t[1] in d["tps"]: continue
                            found.append(t); return
            if e[0] == "dot" and e[1] == ("id", n):
                t = self.type_by_field(e[2], env.mod)
                if t is not None: found.append(t); return
            b2 = bound
            if e[0] in ("forall", "exists", "setc", "mapc", "lam"): b2 = bound | frozenset(x[0] for x in e[1])
            elif e[0] in ("let", "letsuch"): b2 = bound | frozenset(x[1] for x in e[1] if x[0] == "pv")
            for x in e: visit(x, b2)
        visit(whole, frozenset())
        if typ: return found[0] if found else None
        if not found and fallback:
            # every value of the element type, when they can be listed; otherwise the members
            try: return self.universe(fallback[0])
            except (Unsupported, Blowup):
                if not vals: raise
        if found:
            t = found[0]
            us = self.universe(t)
            if t[0] == "int" and (t[1] is None or t[2] is None): self.approx.add("integers quantified without bounds")
            return us
        if vals: return dedup(vals)
        raise Unsupported("no universe for bound variable " + n)

    def type_by_field(self, f, mod):
        f2 = f[:-1] if f.endswith("?") else f
        ms = [mod] + [self.w.find_module([o], mod) for o in mod.opened()]
        for m in ms:
            if m is None: continue
            for d in m.mems().values():
                if d["k"] == "datatype" and not d["tps"]:
                    for cn, fs in d["ctors"]:
                        if (f.endswith("?") and cn == f2) or any(x == f for x, _ in fs): return ("data", d["name"], m.name, ())
        return None

    def e_forall(self, e, env):
        _, vs, g, b = e
        cs = conjs(g) + antecedents(b)
        r = T
        if self.pol < 0:
            e2 = self.skolem(vs, cs, env, (g, b))
            if e2 is not None:
                x = self.B(b, e2)
                return x if g is None else Implies(self.at(-self.pol, self.B, g, e2), x)
        for h, e2 in self.at(0, self.expand, vs, cs, env, (g, b)):
            x = h
            if g is not None: x = And(x, self.B0(g, e2))
            if x is F: continue
            r = And(r, Implies(x, self.B(b, e2)))
            if r is F: return F
        return r

    def e_exists(self, e, env):
        _, vs, g, b = e
        cs = conjs(g) + conjs(b)
        r = F
        if self.pol > 0:
            e2 = self.skolem(vs, cs, env, (g, b))
            if e2 is not None:
                x = self.B(b, e2)
                return x if g is None else And(self.B(g, e2), x)
        for h, e2 in self.at(0, self.expand, vs, cs, env, (g, b)):
            x = h
            if g is not None: x = And(x, self.B0(g, e2))
            if x is F: continue
            r = Or(r, And(x, self.B(b, e2)))
            if r is T: return T
        return r

    def skolem(self, vs, cs, env, whole):
        """Fresh witnesses for variables whose universe cannot be listed; None when listing is the better choice."""
        big = False
        ts = []
        for n, ty in vs:
            t = self.rt(ty, env.mod, env.ty) if ty is not None else None
            if t is None or t[0] == "?":
                t = self.at(0, self.infer_type, n, whole, env, frozenset(x for x, _ in vs))
            ts.append(t)
            if t is None: return None
            if t[0] in ("data", "seq", "map", "imap", "set", "iset", "tuple", "subset", "fun"):
                try: big |= len(self.universe(t)) > 12
                except (Blowup, Unsupported): big = True
        if not big: return None
        pend = frozenset(x for x, _ in vs)
        new = {}
        for (n, ty), t in zip(vs, ts):
            self.skolems += 1
            new[n] = self.fresh(t, f"{n}~{self.skolems}")
        return env.sub(new)

    def e_setc(self, e, env):
        _, vs, g, b, inf = e
        cs = conjs(g)
        if inf and b is None and len(vs) == 1:
            n, ty = vs[0]

            def pred(x): return self.B(g, env.sub({n: x})) if g is not None else T
            memo = []

            def univ():
                if not memo: memo.append(dedup([e2.vars[n] for h, e2 in self.expand(vs, cs, env, (g,))]))
                return memo[0]
            return mkL(pred, univ)
        out = []
        for h, e2 in self.expand(vs, cs, env, (g, b)):
            x = h
            if g is not None: x = And(x, self.B(g, e2))
            if x is F: continue
            out.append((x, self.ev(b, e2) if b is not None else e2.vars[vs[0][0]]))
        return set_from(out)

    def e_mapc(self, e, env):
        _, vs, g, b, key, inf = e
        cs = conjs(g)
        if inf and key is None and len(vs) == 1:
            n, ty = vs[0]
            memo = []

            def univ():
                if not memo: memo.append(dedup([e2.vars[n] for h, e2 in self.expand(vs, cs, env, (g, b))]))
                return memo[0]
            return mkLM(lambda x: self.B(g, env.sub({n: x})) if g is not None else T, lambda x: self.ev(b, env.sub({n: x})), univ)
        out = []
        for h, e2 in self.expand(vs, cs, env, (g, b)):
            x = h
            if g is not None: x = And(x, self.B(g, e2))
            if x is F: continue
            out.append((x, self.ev(key, e2) if key is not None else e2.vars[vs[0][0]], self.ev(b, e2)))
        return map_from(out)

    def e_seqc(self, e, env):
        n = self.ev(e[1], env)
        f = self.ev(e[2], env)
        if n is ARB: return ARB
        top = self.bound(n, 1)
        if top is None or top > 400: raise Blowup("sequence length")
        bot = max(0, self.bound(n, 0) or 0)
        es = [f.fn(i) for i in range(max(top, 0))]
        if type(n) is int: return mkSeq(es)
        return merge_list([(ieq(n, k), mkSeq(es[:k])) for k in range(bot, max(top, 0) + 1)])

    def choose(self, vs, cond, env, body):
        """(exists, value of body at the first candidate that satisfies cond)."""
        out, rest = [], T
        for h, e2 in self.expand([v[:2] for v in vs], conjs(cond), env, cond):
            g = And(And(h, rest), self.B(cond, e2))
            if g is F: continue
            out.append((g, self.ev(body, e2) if type(body) is tuple else mkD("#tuple", [e2.vars[n] for n in body])))
            rest = And(rest, g.neg)
            if rest is F: break
        return rest.neg, merge_list(out)

    def e_letsuch(self, e, env):
        if self.pol: return self.at(0, self.e_letsuch, e, env)
        _, pats, cond, body = e
        return self.choose([(p[1], p[2]) for p in pats], cond, env, body)[1]

    def e_lam(self, e, env):
        ns = [p[0] for p in e[1]]
        body = e[3]
        return mkFn(lambda *a: self.ev(body, env.sub(dict(zip(ns, a)))), "lambda")

    def e_as(self, e, env):
        v = self.ev(e[1], env)
        t = self.rt(e[2], env.mod, env.ty)

        def f(v):
            if t[0] == "bv":
                x = v.t if type(v) is Bv else v
                if x is ARB: return ARB
                l, h = rng(x)
                return mkBv(t[1], x if l is not None and h is not None and l >= 0 and h < (1 << t[1]) else imod(x, 1 << t[1]))
            if type(v) is Bv: return v.t
            return v
        return lift(f, v)

    # ---- access
    def e_slice(self, e, env):
        s = self.ev(e[1], env)
        a = self.ev(e[2], env) if e[2] is not None else None
        b = self.ev(e[3], env) if e[3] is not None else None
        s = self.deref(s, env)
        if type(a) is Bv: a = a.t
        if type(b) is Bv: b = b.t
        return seq_sub(s, a, b)

    def deref(self, s, env):
        """Array reference to its contents."""
        def f(x):
            return env.heap.get((x.n, "#"), ARB) if type(x) is Ref else x
        if type(s) is Ref or (type(s) is U and any(type(x) is Ref for _, x in s.alts)): return lift(f, s)
        return s

    def e_index(self, e, env):
        s = self.ev(e[1], env)
        i = self.ev(e[2], env)
        return self.index(s, i, env)

    def index(self, s, i, env):
        s = self.deref(s, env)
        t = type(s)
        if s is ARB: return ARB
        if t is U: return merge_list([(g, self.index(v, i, env)) for g, v in s.alts])
        if t is SeqV:
            if type(i) is Bv: i = i.t
            if type(i) is U: return lift(lambda j: seq_get(s, j), i)
            return seq_get(s, i)
        if t in (MapV, LMap): return map_get(s, i)
        if t is MSetV: return ms_count(s, i)
        raise Unsupported("index of " + t.__name__)

    def e_sequpd(self, e, env):
        s, i, v = self.ev(e[1], env), self.ev(e[2], env), self.ev(e[3], env)
        return self.upd(s, i, v)

    def upd(self, s, i, v):
        t = type(s)
        if s is ARB: return ARB
        if t is U: return merge_list([(g, self.upd(w, i, v)) for g, w in s.alts])
        if t is SeqV: return lift(lambda j: seq_update(s, j, v), i) if type(i) is U else seq_update(s, i, v)
        if t in (MapV, LMap): return map_insert(s, i, v)
        if t is MSetV:
            cs = cases(i)
            m = dict(s.m)
            for g, c in cs: m[c] = ite(g, v, m.get(c, 0))
            return mkMSet(m)
        raise Unsupported("update of " + t.__name__)

    def e_upd(self, e, env):
        v = self.ev(e[1], env)
        ups = [(n, self.ev(x, env)) for n, x in e[2]]

        def f(w):
            if w is ARB: return ARB
            if w.con == "#tuple":
                fs = list(w.fs)
                for n, x in ups: fs[int(n)] = x
                return mkD(w.con, fs)
            d, i, m = self.con[w.con]
            names = [a for a, _ in d["ctors"][i][1]]
            fs = list(w.fs)
            for n, x in ups:
                if n not in names:
                    # other constructor: the one having every updated field
                    return ARB
                fs[names.index(n)] = x
            return mkD(w.con, fs)
        return lift(f, v)

    def path_of(self, e):
        if e[0] == "id": return [e[1]]
        if e[0] == "dot":
            p = self.path_of(e[1])
            return p + [e[2]] if p else None
        if e[0] == "inst": return self.path_of(e[1])
        return None

    def static(self, e, env):
        """(decl or ctor, module, class) when e is a dotted name that denotes a module member rather than a field access."""
        p = self.path_of(e)
        if p is None or p[0] in env.vars or p[0] == "this": return None
        if env.cls is not None and self.has_member(env.cls, p[0]): return None
        for cut in range(len(p) - 1, -1, -1):
            if cut == 0:
                d, m = self.lookup(env.mod, p[0])
                if d is None: return None
                if type(d) is dict and d["k"] == "import" and len(p) > 1: continue
                rest = p[1:]
            else:
                m = self.w.find_module(p[:cut], env.mod)
                if m is None: continue
                n = p[cut]
                d = m.mems().get(n)
                if d is None and n in m.ctors: d = ("ctor",) + m.ctors[n]
                if d is None:
                    d, m2 = self.lookup(m, n)
                    if d is None: continue
                    m = m2
                rest = p[cut + 1:]
            if not rest:
                d, m = self.ctor_of(d, m, p[-1], m)
                return d, m, None
            if type(d) is dict and d["k"] in ("datatype", "class") and len(rest) == 1:
                if d["k"] == "datatype":
                    for i, (cn, fs) in enumerate(d["ctors"]):
                        if cn == rest[0]: return ("ctor", d, i), m, None
                for x in d["members"]:
                    if x["name"] == rest[0]: return x, m, d
            return None
        return None

    def has_member(self, d, n):
        if d["k"] == "datatype" and any(fn == n for _, fs in d["ctors"] for fn, _ in fs): return True
        return any(x["name"] == n for x in d["members"])

    def e_dot(self, e, env):
        s = self.static(e, env)
        if s is not None:
            d, m, cls = s
            if cls is not None:
                if d["k"] == "const": return self.ev(d["e"], Env({}, None, m, env.heap, {}, None, cls))
                return mkFn(lambda *a: self.call(d, m, None, list(a), env, cls=cls), e[2])
            return self.use(d, m, env, e[2])
        return self.dot(self.ev(e[1], env), e[2], env)

    def dot(self, v, f, env):
        t = type(v)
        if v is ARB: return arb_bool() if f.endswith("?") else ARB
        if t is U:
            return merge_list([(g, self.dot(w, f, env)) for g, w in v.alts if not (w is ARB)])
        if t is D:
            if v.con == "#tuple": return v.fs[int(f)]
            d, i, m = self.con[v.con]
            if f.endswith("?"): return BC(d["ctors"][i][0] == f[:-1])
            for j, (fn, _) in enumerate(d["ctors"][i][1]):
                if fn == f: return v.fs[j]
            for _, fs in d["ctors"]:
                if any(fn == f for fn, _ in fs): return ARB
            for x in d["members"]:
                if x["name"] == f:
                    if x["k"] == "const": return self.ev(x["e"], Env({}, v, m, env.heap, {}, None, d))
                    return mkFn(lambda *a: self.call(x, m, v, list(a), env, cls=d), f)
            raise Unsupported("field " + f)
        if t in (MapV, LMap):
            if f == "Keys": return map_dom(v)
            if f == "Values": return map_values(v)
            if f == "Items": return map_items(v, lambda a, b: mkD("#tuple", (a, b)))
        if t is Ref: return self.hget(v, f, env)
        if t is FnV:
            if f == "requires": return mkFn(lambda *a: T, "requires")
            if f == "reads": return mkFn(lambda *a: mkSet({}), "reads")
        raise Unsupported(f"field {f} of {t.__name__}")

    def hget(self, o, f, env):
        def g(x):
            if x is ARB or x.n == 0: return ARB
            if f == "Length":
                a = env.heap.get((x.n, "#"), ARB)
                return seq_len(a)
            r = env.heap.get((x.n, f))
            if r is None:
                c = self.refcls.get(x.n)
                if c:
                    d, m, tys = c
                    for y in d["members"]:
                        if y["name"] == f and y["k"] == "function":
                            return mkFn(lambda *a: self.call(y, m, x, list(a), env, cls=d), f)
                        if y["name"] == f and y["k"] == "const" and y["e"] is not None:
                            return self.ev(y["e"], Env({}, x, m, env.heap, {}, None, d))
                return ARB
            return r
        return lift(g, o)

    # ---- calls
    def callee(self, fe, env):
        """(decl or ctor, module, this, cls) of a call when known statically, without evaluating receivers."""
        if fe[0] == "inst": fe = fe[1]
        if fe[0] == "id":
            n = fe[1]
            if n in env.vars: return None
            if env.cls is not None:
                for x in env.cls["members"]:
                    if x["name"] == n and x["k"] in ("function", "method"): return x, env.mod, env.this, env.cls
            d, m = self.lookup(env.mod, n)
            d, m = self.ctor_of(d, m, n, env.mod)
            if d is not None and (type(d) is tuple or d["k"] in ("function", "method")): return d, m, None, None
            return None
        if fe[0] == "dot":
            s = self.static(fe, env)
            if s is not None:
                d, m, cls = s
                if type(d) is tuple or d["k"] in ("function", "method"): return d, m, None, cls
        return None

    def e_call(self, e, env):
        _, fe, args, ln = e
        c = self.callee(fe, env)
        if c is not None:
            d, m, this, cls = c
            if type(d) is tuple:
                return mkD(self.dcon(d[1], m, d[2]), [self.ev0(a, env) for a in args])
            if d["k"] == "method": raise Unsupported("method call in expression: " + d["name"])
            tys = None
            if fe[0] == "inst": tys = [self.rt(t, env.mod, env.ty) for t in fe[2]]
            return self.call(d, m, this, [self.ev0(a, env) for a in args], env, cls=cls, tys=tys)
        if fe[0] == "inst": fe = fe[1]
        if fe[0] == "dot":
            v = self.ev0(fe[1], env)
            x = self.vmember(v, fe[2])
            if x is not None:
                d, m, cls = x
                return self.call(d, m, v, [self.ev0(a, env) for a in args], env, cls=cls)
        f = self.ev0(fe, env)
        if f is ARB: return ARB
        av = [self.ev0(a, env) for a in args]
        return self.at(0, lift, lambda g: ARB if g is ARB else g.fn(*av), f)

    def vmember(self, v, n):
        """Member function or method n of the type of v."""
        for _, w in alts(v):
            if type(w) is D and w.con != "#tuple":
                d, i, m = self.con[w.con]
                for x in d["members"]:
                    if x["name"] == n and x["k"] in ("function", "method"): return x, m, d
                return None
            if type(w) is Ref and w.n:
                c = self.refcls.get(w.n)
                if c:
                    for x in c[0]["members"]:
                        if x["name"] == n and x["k"] in ("function", "method"): return x, c[1], c[0]
                return None
        return None

    def call_split(self, *a): return self.call(*a)

    def call(self, d, m, this, args, env, cls=None, tys=None):
        n = d["name"]
        q = f"{m.name}.{n}" if cls is None else f"{m.name}.{cls['name']}.{n}"
        o = self.cfg.over.get(q)
        if o is None: o = self.cfg.over.get("*." + n)
        if o is not None: return o(self, *args) if callable(o) else o
        if "static" in d.get("mods", ()): this = None
        if d["body"] is None: return self.uninterp(d, m, args, q, cls)
        heapy = bool(d["reads"]) or type(this) is Ref or (type(this) is U and any(type(x) is Ref for _, x in this.alts))
        key = None
        if not heapy:
            key = (id(d), m.name, None if this is None else _k(this), tuple(_k(a) for a in args))
            if self.pol: key += (self.pol,)
            r = self.memo.get(key)
            if r is not None: return r
        dep = self.depth.get(id(d), 0)
        if dep >= 1:
            # recursive: one case per shape of the arguments, and nothing outside the precondition
            vs = ([this] if this is not None else []) + args
            sp = []
            multi = False
            for a in vs:
                if type(a) is U: sp.append(a.alts); multi = True
                elif type(a) is Tm and not a.isb:
                    cs = few(a)
                    if cs is None and a.lo is not None and a.hi is not None and a.hi - a.lo <= 70:
                        cs = [(ieq(a, j), j) for j in range(a.lo, a.hi + 1)]
                    if cs is not None and len(cs) > 1: sp.append(cs); multi = True
                    else: sp.append(((T, a),))
                else: sp.append(((T, a),))
            if multi:
                out = []
                for combo in itertools.product(*sp):
                    g = AndL([c[0] for c in combo])
                    if g is F: continue
                    vv = [c[1] for c in combo]
                    out.append((g, self.call_split(d, m, vv[0] if this is not None else None, vv[1:] if this is not None else vv, env, cls, tys)))
                r = merge_list(out)
                if key is not None: self.memo[key] = r
                return r
            if dep > self.cfg.recdepth: raise Blowup("recursion in " + n)
        self.fns[q] = self.fns.get(q, 0) + 1
        bvp = d.get("_bv")
        if bvp is None:
            bvp = d["_bv"] = [(j, int(p[1][1][0][2:])) for j, p in enumerate(d["params"]) if p[1] is not None and p[1][0] == "tn" and len(p[1][1]) == 1 and p[1][1][0][:2] == "bv" and p[1][1][0][2:].isdigit()]
        for j, w in bvp:
            if type(args[j]) is int: args = list(args); args[j] = mkBv(w, args[j])
        ty = dict(env.ty) if cls is not None and env.ty else {}
        if tys: ty.update(zip(d["tps"], tys))
        e2 = Env({p[0]: a for p, a in zip(d["params"], args)}, this, m, env.heap if heapy else {}, ty, None, cls)
        self.depth[id(d)] = dep + 1
        try:
            if dep >= 1:
                pt = d.get("_pt")
                if pt is None:
                    pt = []
                    if not d["tps"]:
                        for pn, ty_, *_ in d["params"]:
                            t_ = self.rt(ty_, m, ty) if ty_ is not None else ("?",)
                            if t_[0] in ("int", "subset"): pt.append((pn, t_))
                    d["_pt"] = pt
                for pn, t_ in pt:
                    if t_[0] == "int" and self.member(t_, e2.vars[pn]) is F: return ARB
                for rq in d["requires"]:
                    try:
                        if self.B0(rq, e2) is F: return ARB
                    except Unsupported: pass
            r = self.ev(d["body"], e2)
        finally:
            self.depth[id(d)] = dep
        if key is not None: self.memo[key] = r
        return r

    def uninterp(self, d, m, args, q, cls):
        """A function without a body: an unknown but fixed function of its (concrete) arguments."""
        if cls is not None and q not in self.cfg.over: raise Unsupported("no body: " + q)
        t = self.rt(d["rty"], m, {x: ("tv", x) for x in d["tps"]})
        out = []
        for combo in itertools.product(*[cases(a) for a in args]):
            g = AndL([c[0] for c in combo])
            if g is F: continue
            key = (q,) + tuple(_k(c[1]) for c in combo)
            if key not in self.ufs:
                v = self.ufs[key] = self.fresh(t, f"{q}({','.join(str(c[1]) for c in combo)})")
                e2 = Env({p[0]: c[1] for p, c in zip(d["params"], combo)}, None, m, {}, {}, None, None)
                if d["res"]: e2.vars[d["res"]] = v
                self.memo[(id(d), m.name, None, tuple(_k(c[1]) for c in combo))] = v
                for en in d["ensures"]:
                    self.assume.append(self.B(en, e2))
            out.append((g, self.ufs[key]))
        return merge_list(out)


def _k(v):
    return v if type(v) is int else ("s", v) if type(v) is str else (v.id,)


# ------------------------------------------------------------------ methods
class St:
    __slots__ = ("vars", "heap")

    def __init__(self, vars, heap):
        self.vars, self.heap = vars, heap

    def copy(self): return St(dict(self.vars), dict(self.heap))


class Frame:
    def __init__(self, d, mod, this, ty, cls, old):
        self.d, self.mod, self.this, self.ty, self.cls, self.old = d, mod, this, ty, cls, old
        self.exits = []
        self.types = {}


def join(g, a, b):
    """State that is a under g and b otherwise."""
    def mg(x, y):
        out = dict(y)
        for k, v in x.items():
            o = y.get(k)
            out[k] = v if o is None else o if o is v else merge(g, v, o)
        return out
    return St(mg(a.vars, b.vars), mg(a.heap, b.heap))


def join_all(xs):
    """xs: list of (pc, st) with exclusive pcs."""
    xs = [x for x in xs if x is not None and x[0] is not F]
    if not xs: return None
    pc, st = xs[-1]
    for p, s in reversed(xs[:-1]):
        st = join(p, s, st)
        pc = Or(pc, p)
    return pc, st


class Exec(Ev):
    def env(self, fr, st, pc):
        return Env(st.vars, fr.this if "self" not in st.vars else st.vars["self"], fr.mod, st.heap, fr.ty, fr.old, fr.cls, pc if self.track else None)

    def feasible(self, pc):
        if pc is F: return False
        try:
            return solve([pc] + self.assume, timeout=30) is not None
        except Timeout:
            return True

    def fault(self, pc, cond, msg):
        g = And(pc, cond.neg)
        if g is not F: self.oblig.append((g, msg))

    def run(self, stmts, st, pc, fr):
        for s in stmts:
            r = self.stmt(s, st, pc, fr)
            if r is None: return None
            pc, st = r
            if pc is F: return None
        return pc, st

    def stmt(self, s, st, pc, fr):
        f = getattr(self, "s_" + s[0], None)
        if f is None: raise Unsupported("statement " + s[0])
        return f(s, st, pc, fr)

    def s_block(self, s, st, pc, fr):
        return self.run(s[1], st, pc, fr)

    def s_skel(self, s, st, pc, fr): return pc, st

    def s_label(self, s, st, pc, fr):
        n = len(fr.exits)
        r = self.run(s[2], st, pc, fr)
        out = [r]
        keep = []
        for x in fr.exits[n:]:
            if x[0] == "break" and x[1] == s[1]: out.append(x[2:])
            else: keep.append(x)
        fr.exits[n:] = keep
        return join_all(out)

    def s_if(self, s, st, pc, fr):
        _, c, th, el, ln = s
        if c == ("star",): g = self.new_bool("star")
        elif c[0] == "such?":
            env = self.env(fr, st, pc)
            ex, v = self.choose(c[1], c[2], env, None)
            a = st.copy()
            if v is not ARB:
                for i, (n, _) in enumerate(c[1]): a.vars[n] = field(v, None, i)
            r1 = self.run(th, a, And(pc, ex), fr) if And(pc, ex) is not F else None
            r2 = self.run(el or [], st, And(pc, ex.neg), fr) if And(pc, ex.neg) is not F else None
            return self.drop(join_all([r1, r2]), st)
        else: g = self.B(c, self.env(fr, st, pc))
        p, q = And(pc, g), And(pc, g.neg)
        r1 = r2 = None
        if p is not F: r1 = self.run(th, st.copy(), p, fr)
        if q is not F: r2 = self.run(el or [], st.copy(), q, fr)
        return self.drop(join_all([r1, r2]), st)

    def drop(self, r, st):
        """Forget variables declared inside a branch."""
        if r is None: return None
        pc, s2 = r
        return pc, St({k: v for k, v in s2.vars.items() if k in st.vars}, s2.heap)

    def s_ifcase(self, s, st, pc, fr):
        out, rest = [], pc
        for c, b in s[1]:
            g = self.B(c, self.env(fr, st, rest))
            p = And(rest, g)
            if p is not F: out.append(self.run(b, st.copy(), p, fr))
            rest = And(rest, g.neg)
        if rest is not F and rest is not And(rest, F): 
            self.fault(rest, F, "no case applies") if self.track else None
        return self.drop(join_all(out), st)

    def s_match(self, s, st, pc, fr):
        _, e, cases_, ln = s
        env = self.env(fr, st, pc)
        v = self.ev(e, env)
        out, rest = [], pc
        lv = self.is_lval(e, st, fr)
        for p, b in cases_:
            new = {}
            g = self.match1(p, v, new, env)
            q = And(rest, g)
            if q is not F:
                s2 = st.copy(); s2.vars.update(new)
                out.append(self.run(b, s2, q, fr))
            rest = And(rest, g.neg)
        return self.drop(join_all(out), st)

    def is_lval(self, e, st, fr): return None

    def s_while(self, s, st, pc, fr):
        _, c, sp, body, ln = s
        done = []
        cur = (pc, st)
        k = 0
        while True:
            p, t = cur
            g = self.new_bool("star") if c == ("star",) else self.B(c, self.env(fr, t, p))
            if And(p, g.neg) is not F: done.append((And(p, g.neg), t))
            p = And(p, g)
            if p is F: break
            if k >= 1 and g is not T and not self.feasible(p): break
            if k >= self.cfg.unroll:
                self.cuts.append((p, f"loop at line {ln} beyond {self.cfg.unroll} iterations"))
                break
            k += 1
            n = len(fr.exits)
            r = self.run(body, t.copy(), p, fr)
            keep = []
            for x in fr.exits[n:]:
                if x[0] == "break" and x[1] is None and x[4:] in ((), (1,)): done.append(self.drop(x[2:4], t))
                else: keep.append(x)
            fr.exits[n:] = keep
            if r is None: break
            cur = self.drop(r, t)
        return self.drop(join_all(done), st)

    def s_whilecase(self, s, st, pc, fr): raise Unsupported("while case")

    def s_break(self, s, st, pc, fr):
        fr.exits.append(("break", s[1], pc, st))
        return None

    def s_return(self, s, st, pc, fr):
        rs = s[1]
        if rs:
            vs, st, pc = self.rhss(rs, st, pc, fr)
            st = st.copy()
            if len(rs) == 1 and len(fr.d["rets"]) > 1 and len(vs) == 1 and type(vs[0]) is D: vs = list(vs[0].fs)
            for (n, t, *_), v in zip(fr.d["rets"], vs): st.vars[n] = v
        fr.exits.append(("return", None, pc, st))
        return None

    def s_assert(self, s, st, pc, fr):
        if self.check_asserts(fr):
            try:
                c = self.at(-1, self.B, s[1], self.env(fr, st, pc))
            except Unsupported:
                if fr.d.get("harness"): raise
                return pc, st
            self.fault(pc, c, f"assertion at line {s[3]}")
        return pc, st

    def check_asserts(self, fr): return bool(fr.d.get("harness"))

    def s_expect(self, s, st, pc, fr): return self.s_assert(s, st, pc, fr)

    def s_assume(self, s, st, pc, fr):
        c = self.at(1, self.B, s[1], self.env(fr, st, pc))
        p = And(pc, c)
        return None if p is F else (p, st)

    def s_forall(self, s, st, pc, fr):
        _, vs, g, ens, body, ln = s
        if not body or not all(b[0] == "assign" for b in body): return pc, st
        if all(b[1][0][0] in ("id",) for b in body): return pc, st
        env = self.env(fr, st, pc)
        new = st.copy()
        for h, e2 in self.expand(vs, conjs(g), env, (g,)):
            x = And(h, self.B(g, e2)) if g is not None else h
            if x is F: continue
            for b in body:
                v = self.ev(b[2][0], e2)
                a = new.copy()
                a.vars = dict(e2.vars)
                self.assign(b[1][0], v, a, pc, fr)
                j = join(x, a, new)
                new = St(new.vars, j.heap)
        return pc, new

    def s_call(self, s, st, pc, fr):
        e = s[1]
        if e[0] == "call":
            vs, st, pc = self.rhs(e, st, pc, fr, stmt=True)
        return None if pc is F else (pc, st)

    def s_var(self, s, st, pc, fr):
        _, pats, rs, ms, ln = s
        if rs is None:
            st = st.copy()
            for p in pats:
                st.vars[p[1]] = ARB
                if p[2] is not None: fr.types[p[1]] = p[2]
            return pc, st
        vs, st, pc = self.rhss(rs, st, pc, fr)
        st = st.copy()
        if len(pats) > 1 and len(vs) == 1 and type(vs[0]) is D: vs = list(vs[0].fs)
        for p, v in zip(pats, vs):
            new = {}
            self.bind(p, v, new, None)
            st.vars.update(new)
            if p[0] == "pv" and p[2] is not None:
                fr.types[p[1]] = p[2]
                self.typed(p[2], v, pc, fr, ln)
        return None if pc is F else (pc, st)

    def typed(self, t, v, pc, fr, ln):
        if not self.track: return
        t = self.rt(t, fr.mod, fr.ty)
        if t[0] == "int" and isI(v):
            c = self.member(t, v)
            self.fault(pc, c, f"integer range at line {ln}")

    def s_varsuch(self, s, st, pc, fr):
        _, pats, cond, ms, ln = s
        names = [(p[1], p[2]) for p in pats]
        return self.such(names, cond, st, pc, fr, [("id", p[1]) for p in pats])

    def s_such(self, s, st, pc, fr):
        _, lhs, cond, ln = s
        names = []
        for l in lhs:
            if l[0] != "id": raise Unsupported("such-that target")
            names.append((l[1], fr.types.get(l[1])))
        return self.such(names, cond, st, pc, fr, lhs)

    def such(self, names, cond, st, pc, fr, lhs):
        env = self.env(fr, st, pc)
        for n, _ in names: env = Env({k: v for k, v in env.vars.items() if k != n}, env.this, env.mod, env.heap, env.ty, env.old, env.cls, env.pc)
        cands = []
        for h, e2 in self.expand(names, conjs(cond), env, cond):
            g = And(h, self.B(cond, e2))
            if g is not F: cands.append((g, [e2.vars[n] for n, _ in names]))
        if not cands: return None
        self.cnt += 1
        gs = choice(f"pick{self.cnt}", len(cands))
        ok = OrL([And(a, c[0]) for a, c in zip(gs, cands)])
        self.assume.append(Implies(And(pc, OrL([c[0] for c in cands])), ok))
        st = st.copy()
        for i, l in enumerate(lhs):
            self.assign(l, merge_list([(a, c[1][i]) for a, c in zip(gs, cands)]), st, pc, fr)
        return And(pc, OrL([c[0] for c in cands])), st

    def new_bool(self, n):
        self.cnt += 1
        return fresh_bool(f"{n}{self.cnt}")

    def s_assign(self, s, st, pc, fr):
        _, lhs, rs, ln = s
        vs, st, pc = self.rhss(rs, st, pc, fr)
        if pc is F: return None
        st = st.copy()
        if len(lhs) > 1 and len(vs) == 1 and type(vs[0]) is D: vs = list(vs[0].fs)
        # evaluate targets in the state before any of the writes
        tg = [self.target(l, st, pc, fr) for l in lhs]
        for l, t, v in zip(lhs, tg, vs):
            self.assign(l, v, st, pc, fr, t)
            if l[0] == "id" and l[1] in fr.types: self.typed(fr.types[l[1]], v, pc, fr, ln)
        return pc, st

    def target(self, l, st, pc, fr):
        if l[0] == "index":
            env = self.env(fr, st, pc)
            return self.ev(l[1], env), self.ev(l[2], env)
        if l[0] == "dot":
            return (self.ev(l[1], self.env(fr, st, pc)),)
        return None

    def assign(self, l, v, st, pc, fr, t=None):
        """Write in place into st (a copy owned by the caller)."""
        if l[0] == "inout": l = l[1]
        if l[0] == "id":
            n = l[1]
            if n == "_": return
            if n not in st.vars and fr.cls is not None and fr.cls["k"] == "class" and any(x["name"] == n and x["k"] == "field" for x in fr.cls["members"]):
                self.hset(fr.this, n, v, st)
                return
            st.vars[n] = v
            return
        if t is None: t = self.target(l, st, pc, fr)
        if l[0] == "dot":
            o = t[0]
            if self.isref(o):
                if self.track: self.fault(pc, OrL([g for g, x in alts(o) if type(x) is Ref and x.n]), "null dereference")
                self.hset(o, l[2], v, st)
                return
            self.assign(l[1], self.upd_field(o, l[2], v), st, pc, fr)
            return
        if l[0] == "index":
            o, i = t
            if type(i) is Bv: i = i.t
            if self.isref(o):
                for g, x in alts(o):
                    if type(x) is not Ref: continue
                    a = st.heap.get((x.n, "#"), ARB)
                    if self.track: self.fault(And(pc, g), self.inrange(i, a), "array index out of range")
                    st.heap[(x.n, "#")] = merge(g, seq_update(a, i, v), a)
                return
            self.assign(l[1], self.upd(o, i, v), st, pc, fr)
            return
        raise Unsupported("assignment target " + l[0])

    def inrange(self, i, a):
        if a is ARB or i is ARB: return T
        n = seq_len(a)
        return And(ile(0, i), ilt(i, n))

    def isref(self, o):
        return type(o) is Ref or (type(o) is U and any(type(x) is Ref for _, x in o.alts))

    def upd_field(self, o, f, v):
        def g(w):
            if w is ARB: return ARB
            if w.con == "#tuple":
                fs = list(w.fs); fs[int(f)] = v
                return mkD(w.con, fs)
            d, i, m = self.con[w.con]
            names = [a for a, _ in d["ctors"][i][1]]
            fs = list(w.fs); fs[names.index(f)] = v
            return mkD(w.con, fs)
        return lift(g, o)

    def hset(self, o, f, v, st):
        for g, x in alts(o):
            if type(x) is not Ref or x.n == 0: continue
            old = st.heap.get((x.n, f), ARB)
            st.heap[(x.n, f)] = v if g is T else merge(g, v, old)

    def rhss(self, rs, st, pc, fr):
        out = []
        if len(rs) == 1:
            vs, st, pc = self.rhs(rs[0], st, pc, fr)
            return vs, st, pc
        for r in rs:
            v, st, pc = self.rhs(r, st, pc, fr)
            out.append(v[0])
        return out, st, pc

    def rhs(self, r, st, pc, fr, stmt=False):
        """Values, state and path condition after a right-hand side."""
        k = r[0]
        if k == "star":
            return [ARB], st, pc
        if k == "newarr":
            env = self.env(fr, st, pc)
            if len(r[2]) != 1: raise Unsupported("multi-dimensional array")
            st = st.copy()
            o = self.alloc(None)
            if r[3] is not None and r[3][0] == "disp":
                st.heap[(o.n, "#")] = mkSeq([self.ev(x, env) for x in r[3][1]])
            else:
                n = self.ev(r[2][0], env)
                if type(n) is Bv: n = n.t
                top = self.bound(n, 1)
                if top is None or top > 200: raise Blowup("array size")
                f = self.ev(r[3][1], env) if r[3] is not None else None
                es = [f.fn(i) if f is not None else self.blank(r[1], fr) for i in range(max(top, 0))]
                st.heap[(o.n, "#")] = mkSeq(es) if type(n) is int else merge_list([(ieq(n, j), mkSeq(es[:j])) for j in range(0, top + 1)])
            return [o], st, pc
        if k == "newobj":
            ty, args = r[1], r[2]
            ctor = "_ctor"
            try: t = self.rt(ty, fr.mod, fr.ty)
            except Unsupported: t = ("opaque", "?")
            if t[0] != "class" and ty[0] == "tn" and len(ty[1]) > 1:
                t = self.rt(("tn", ty[1][:-1], ty[2]), fr.mod, fr.ty)
                ctor = ty[1][-1]
            if t[0] != "class": raise Unsupported("new of " + str(ty))
            d, m = self.ddecl(t)
            tys = dict(zip(d["tps"], t[3]))
            st = st.copy()
            o = self.alloc((d, m, tys))
            for x in d["members"]:
                if x["k"] == "field": st.heap[(o.n, x["name"])] = ARB
                if x["k"] == "const" and x["e"] is not None: pass
            if args is not None or ctor != "_ctor":
                c = [x for x in d["members"] if x["k"] == "method" and x.get("kind") == "constructor" and x["name"] == ctor]
                if c:
                    vs, st, pc = self.invoke(c[0], m, o, [self.ev(a[1] if a[0] == "inout" else a, self.env(fr, st, pc)) for a in args or []], st, pc, fr, d, [], None)
            return [o], st, pc
        if k == "call":
            c = self.callee(r[1], self.env(fr, st, pc))
            this = None
            recv = None
            env = self.env(fr, st, pc)
            if c is not None:
                d, m, this, cls = c
                fe = r[1][1] if r[1][0] == "inst" else r[1]
                if this is not None and fe[0] == "id": recv = ("id", "self") if "self" in st.vars else ("this",)
            else:
                fe = r[1][1] if r[1][0] == "inst" else r[1]
                d = None
                if fe[0] == "dot":
                    rv = self.ev(fe[1], env)
                    x = self.vmember(rv, fe[2])
                    if x is not None:
                        d, m, cls = x
                        this, recv = rv, fe[1]
            if type(d) is dict and d["k"] == "method":
                if d["kind"] in ("lemma", "colemma") and (stmt or not d["rets"]): return [], st, pc
                args, outs = [], []
                for i, a in enumerate(r[2]):
                    pm = d["params"][i][2] if i < len(d["params"]) else []
                    if a[0] == "inout":
                        outs.append((d["params"][i][0], a[1])); a = a[1]
                    elif "inout" in pm or "ginout" in pm:
                        outs.append((d["params"][i][0], a))
                    args.append(self.ev(a, env))
                return self.invoke(d, m, this, args, st, pc, fr, cls, outs, recv)
            if stmt and type(d) is dict and d["k"] == "function": return [], st, pc
        if k == "inout": r = r[1]
        v = self.ev(r, self.env(fr, st, pc))
        return [v], st, pc

    def blank(self, ty, fr):
        return ARB

    def alloc(self, cls):
        self.nref += 1
        n = 1000 + self.nref
        _r = mkRef(n)
        self.refcls[n] = cls
        return _r

    def invoke(self, d, m, this, args, st, pc, fr, cls, outs, recv):
        """Run a method; returns (results, state, path condition)."""
        q = f"{m.name}.{d['name']}" if cls is None else f"{m.name}.{cls['name']}.{d['name']}"
        o = self.cfg.over.get(q) or self.cfg.over.get("*." + d["name"])
        if o is not None:
            st = st.copy()
            return o(self, st, pc, this, args), st, pc
        # dispatch over the objects a receiver may denote
        if type(this) is U and any(type(x) is Ref for _, x in this.alts):
            res = []
            for g, x in this.alts:
                p = And(pc, g)
                if p is F: continue
                if type(x) is not Ref or x.n == 0:
                    if self.track: self.fault(p, F, "null receiver")
                    continue
                vs, s2, p2 = self.invoke(d, m, x, args, st.copy(), p, fr, cls, outs, recv)
                res.append((p2, s2, vs))
            if not res: return [ARB] * len(d["rets"]), st, F
            j = join_all([(p, s) for p, s, _ in res])
            vs = [merge_list([(p, v[i]) for p, _, v in res]) for i in range(len(d["rets"]))]
            return vs, j[1], j[0]
        if d["body"] is None: return self.havoc(d, m, this, args, st, pc, cls, q)
        dep = self.depth.get(id(d), 0)
        if dep > self.cfg.recdepth: raise Blowup("recursion in " + d["name"])
        if dep >= 1 and not self.feasible(pc): return [ARB] * len(d["rets"]), st, F
        self.fns[q] = self.fns.get(q, 0) + 1
        ty = dict(fr.ty) if fr is not None and cls is not None and fr.cls is cls else {}
        if cls is not None and type(this) is Ref and self.refcls.get(this.n): ty.update(self.refcls[this.n][2])
        f2 = Frame(d, m, this, ty, cls, dict(st.heap))
        vars = {p[0]: a for p, a in zip(d["params"], args)}
        for p in d["params"]:
            if p[1] is not None: f2.types[p[0]] = p[1]
        for n, t, *_ in d["rets"]:
            vars.setdefault(n, ARB)
            if t is not None: f2.types[n] = t
        selfy = cls is not None and cls["k"] == "datatype" and this is not None
        if selfy: vars["self"] = this
        if self.track:
            s0 = St(vars, st.heap)
            for rq in d["requires"]:
                try:
                    self.track = False
                    c = self.B(rq, self.env(f2, s0, pc))
                except Unsupported: c = T
                finally: self.track = True
                self.fault(pc, c, f"precondition of {d['name']}")
        self.depth[id(d)] = dep + 1
        try:
            r = self.run(d["body"], St(vars, dict(st.heap)), pc, f2)
        finally:
            self.depth[id(d)] = dep
        rets = [(x[2], x[3]) for x in f2.exits if x[0] == "return"]
        j = join_all(rets + [r])
        if j is None: return [ARB] * len(d["rets"]), st, F
        p2, s2 = j
        out = St(dict(st.vars), s2.heap)
        vs = [s2.vars.get(n, ARB) for n, *_ in d["rets"]]
        if self.track:
            for (n, t, *_), v in zip(d["rets"], vs):
                if t is not None: self.typed(t, v, p2, f2, d["line"])
        for n, l in outs: self.assign(l, s2.vars[n], out, p2, fr)
        if selfy and ("inout" in d["mods"] or "ginout" in d["mods"]) and recv is not None and recv != ("this",):
            self.assign(recv, s2.vars["self"], out, p2, fr)
        return vs, out, p2

    def havoc(self, d, m, this, args, st, pc, cls, q):
        if "extern" not in str(d["attrs"]) and "axiom" not in str(d["attrs"]): raise Unsupported("no body: " + q)
        vs = []
        e = {p[0]: a for p, a in zip(d["params"], args)}
        for n, t, *_ in d["rets"]:
            self.cnt += 1
            v = self.fresh(self.rt(t, m, {}), f"{d['name']}#{self.cnt}.{n}")
            vs.append(v)
            e[n] = v
        for en in d["ensures"]:
            self.assume.append(Implies(pc, self.B(en, Env(e, this, m, st.heap, {}, st.heap, cls))))
        return vs, st, pc

    # index checks inside tracked expressions
    def e_index(self, e, env):
        s = self.ev(e[1], env)
        i = self.ev(e[2], env)
        if self.track and env.pc is not None and self.isref(s):
            a = self.deref(s, env)
            if self.kind(a) == "seq":
                self.fault(env.pc, lift(lambda x, y: self.inrange(x.t if type(x) is Bv else x, y), i, a), "array index out of range")
        return self.index(s, i, env)

    def e_and(self, e, env):
        if not (self.track and env.pc is not None): return Ev.e_and(self, e, env)
        r = T
        for x in e[1]:
            r = And(r, self.B(x, self.wpc(env, And(env.pc, r))))
            if r is F: return F
        return r

    def e_or(self, e, env):
        if not (self.track and env.pc is not None): return Ev.e_or(self, e, env)
        r = F
        for x in e[1]:
            r = Or(r, self.B(x, self.wpc(env, And(env.pc, r.neg))))
            if r is T: return T
        return r

    def e_ite(self, e, env):
        if not (self.track and env.pc is not None) or e[1][0] == "such?": return Ev.e_ite(self, e, env)
        c = self.B(e[1], env)
        if c is T: return self.ev(e[2], env)
        if c is F: return self.ev(e[3], env)
        return merge(c, self.ev(e[2], self.wpc(env, And(env.pc, c))), self.ev(e[3], self.wpc(env, And(env.pc, c.neg))))

    def wpc(self, env, pc):
        return Env(env.vars, env.this, env.mod, env.heap, env.ty, env.old, env.cls, pc)


# ------------------------------------------------------------------ obligations
class Result:
    def __init__(self, status, detail="", inputs=None, why=None):
        self.status, self.detail, self.inputs, self.why, self.confirmed = status, detail, inputs, why, None


def show(ev, v):
    t = type(v)
    if v is ARB: return "?"
    if v is T: return "true"
    if v is F: return "false"
    if t is D:
        n = v.con.rsplit(".", 1)[-1]
        if n == "#tuple": return "(" + ", ".join(show(ev, f) for f in v.fs) + ")"
        return n + ("(" + ", ".join(show(ev, f) for f in v.fs) + ")" if v.fs else "")
    if t is SeqV: return "[" + ", ".join(show(ev, x) for x in v.es) + "]"
    if t is SetV: return "{" + ", ".join(show(ev, x) for x in v.m) + "}"
    if t is MapV: return "map[" + ", ".join(show(ev, k) + " := " + show(ev, w) for k, (g, w) in v.m.items()) + "]"
    if t is MSetV: return "multiset{" + ", ".join(f"{show(ev, k)} x{n}" for k, n in v.m.items()) + "}"
    return str(v)


def check_routine(world, cfg, mod, d, cls=None, timeout=60, track=False, want=None, inst=None):
    """Requires => ensures of one lemma, function or method over the bounded inputs; Result."""
    ev = Exec(world, cfg)
    ev.track = False
    sv.INPUTS.clear()
    try:
        return _check(ev, world, cfg, mod, d, cls, timeout, track, want, inst)
    except (Unsupported, Blowup) as e:
        return Result("unsupported", f"{type(e).__name__}: {e}")
    except Timeout as e:
        return Result("timeout", str(e))
    except RecursionError:
        return Result("unsupported", "recursion")


def _check(ev, world, cfg, mod, d, cls, timeout, track, want, inst):
    ty = {}
    for t in (cls["tps"] if cls else []) + d["tps"]: ty[t] = (inst or {}).get(t, ("tv", t))
    this = None
    if cls is not None and "static" not in d["mods"] and not (d["k"] == "method" and d.get("kind") == "constructor"):
        this = ev.fresh(("data" if cls["k"] == "datatype" else "class", cls["name"], mod.name, tuple(ty[t] for t in cls["tps"])), "this")
    vars = {}
    for n, t, *_ in d["params"]:
        if t is None: return Result("unsupported", "untyped parameter")
        vars[n] = ev.fresh(ev.rt(t, mod, ty), n)
    if this is not None: vars["self"] = this
    heap = ev.heap0
    pc, goals, inputs, stop = _goals(ev, mod, d, cls, ty, this, dict(vars), heap, track, 1)
    if stop is not None:
        if stop.status == "proved": stop.fns, stop.approx = ev.fns, ev.approx
        return stop
    asm = ev.assume
    if solve([pc] + asm, timeout) is None: return Result("vacuous")
    for gi, (g, msg) in enumerate(goals):
        if want is not None and msg not in want: continue
        m = solve([g] + asm, timeout)
        if m is not None:
            M = Model(m)
            r = Result("refuted", msg, {k: show(ev, M.conc(v)) for k, v in inputs.items() if type(v) is not FnV}, ev)
            r.confirmed = confirm(ev, world, cfg, mod, d, cls, ty, M, this, vars, heap, track, gi, msg)
            return r
    r = Result("proved", f"{len(goals)} goals")
    r.fns, r.approx = ev.fns, ev.approx
    return r


def confirm(ev, world, cfg, mod, d, cls, ty, M, this, vars, heap, track, gi, msg):
    """Re-run the routine on the concrete inputs of the model, with wider quantifier ranges and no solver in the loop."""
    c2 = Cfg(**{**cfg.__dict__})
    c2.qint = (cfg.qint[0] - 3, cfg.qint[1] + 6)
    c2.maxuniv = max(cfg.maxuniv, 2000)
    e2 = Exec(world, c2)
    e2.con, e2.refcls, e2.nref = ev.con, ev.refcls, 10 ** 6
    try:
        hp = {k: M.conc(v) for k, v in heap.items()}
        vv = {k: M.conc(v) for k, v in vars.items()}
        th = vv.get("self") if this is not None else None
        pc, goals, _, stop = _goals(e2, mod, d, cls, ty, th, vv, hp, track, 0)
        if stop is not None: return None if stop.status == "vacuous" else "the model evaluates the failed condition to false"
        bad = [m for g, m in goals if g is T]
        if bad: return "fails: " + ", ".join(bad)
        if gi >= len(goals) or all(g is F for g, m in goals): return None
        return "the model evaluates the failed condition to false"
    except (Unsupported, Blowup, RecursionError, Timeout):
        return "the model evaluates the failed condition to false"


def _goals(ev, mod, d, cls, ty, this, vars, heap, track, pol):
    """(path condition, [(failure condition, message)], inputs and results, early outcome)"""
    params = dict(vars)
    env = Env(vars, this, mod, heap, ty, heap, cls, None)
    pre = [ev.at(pol, ev.B, r, env) for r in d["requires"]]
    pc = AndL(pre)
    if AndL(ev.assume) is F or pc is F: return None, None, None, Result("vacuous")
    inputs = dict(vars)
    goals = []
    if d["k"] == "function":
        if not d["ensures"]: return None, None, None, Result("none")
        v = ev.call(d, mod, this, [vars[p[0]] for p in d["params"]], env, cls)
        e2 = env.sub({d["res"]: v} if d["res"] else {})
        inputs["result"] = v
        for i, en in enumerate(d["ensures"]): goals.append((And(pc, ev.at(-pol, ev.B, en, e2).neg), f"ensures #{i + 1}"))
        return pc, goals, inputs, None
    lemma = d["kind"] in ("lemma", "colemma")
    if lemma and not d["rets"] and not (d.get("harness") and d["body"] and not d["ensures"]):
        if not d["ensures"]: return None, None, None, Result("none")
        for i, en in enumerate(d["ensures"]): goals.append((And(pc, ev.at(-pol, ev.B, en, env).neg), f"ensures #{i + 1}"))
        return pc, goals, inputs, None
    if d["body"] is None: return None, None, None, Result("none")
    ev.track = track
    fr = Frame(d, mod, this, ty, cls, heap)
    for p in d["params"]:
        if p[1] is not None: fr.types[p[0]] = p[1]
    for n, t, *_ in d["rets"]:
        vars = {**vars, n: ARB}
        if t is not None: fr.types[n] = t
    r = ev.run(d["body"], St(dict(vars), dict(heap)), pc, fr)
    j = join_all([(x[2], x[3]) for x in fr.exits if x[0] == "return"] + [r])
    ev.track = False
    goals += ev.oblig
    if j is not None:
        p2, s2 = j
        for n, *_ in d["rets"]: inputs[n] = s2.vars.get(n, ARB)
        env2 = Env({**s2.vars, **{p[0]: params[p[0]] for p in d["params"] if "inout" not in p[2]}}, s2.vars.get("self", this), mod, s2.heap, ty, heap, cls, None)
        for i, en in enumerate(d["ensures"]): goals.append((And(p2, ev.at(-pol, ev.B, en, env2).neg), f"ensures #{i + 1}"))
    for g, msg in ev.cuts:
        if ev.feasible(g): return None, None, None, Result("unsupported", msg)
    if not goals:
        # a harness method whose every assertion already folded to true
        if d.get("harness"): return None, None, None, Result("proved", "all assertions folded to true")
        return None, None, None, Result("none")
    return pc, goals, inputs, None
