"""Parser for the Dafny dialects in this repository (stock Dafny 2.3 plus the linear-types fork). Nodes are tuples."""
import re

TOK = re.compile(r"""
  (?P<ws>[ \t\r\n]+|//[^\n]*)
 |(?P<cm>/\*)
 |(?P<attr>\{:)
 |(?P<num>0x[0-9a-fA-F_]+|\d[\d_]*\.\d+|\d[\d_]*)
 |(?P<str>@"(?:[^"]|"")*"|"(?:[^"\\\n]|\\.)*")
 |(?P<chr>'(?:[^'\\\n]|\\.[0-9a-fA-F]{0,4})'(?![A-Za-z0-9_']))
 |(?P<id>[A-Za-z_?][A-Za-z0-9_'?]*)
 |(?P<op><==>|==>|<==|\.\.\.|:=|:\||:-|::|==|!=|<=|>=|&&|\|\||!!|\.\.|=>|->|~>|-->|<<|[-+*/%&|^<>!=(){}\[\],;:.`@\#])
""", re.X)

MODS = {"ghost", "static", "protected", "linear", "shared", "glinear", "gshared", "abstract", "inline", "opaque", "inout", "twostate",
        "ginout"}
STMT_LIN = {"linear", "glinear", "ghost", "shared", "gshared"}


class ParseError(Exception):
    pass


class P:
    def __init__(self, text, fname="?"):
        self.fname = fname
        self.text = text
        self.toks = []
        pos, n = 0, len(text)
        m = TOK.match
        ap = self.toks.append
        while pos < n:
            t = m(text, pos)
            if not t:
                raise ParseError(f"{fname}: bad character {text[pos:pos+20]!r} at line {text.count(chr(10), 0, pos) + 1}")
            k = t.lastgroup
            if k == "ws":
                pos = t.end()
                continue
            if k == "cm":
                d, pos = 1, t.end()
                while d:
                    a, b = text.find("*/", pos), text.find("/*", pos)
                    if a < 0:
                        raise ParseError("comment")
                    if 0 <= b < a:
                        d, pos = d + 1, b + 2
                    else:
                        d, pos = d - 1, a + 2
                continue
            if k == "attr":
                # skip the attribute
                d, pos = 1, t.end()
                while d:
                    c = text[pos]
                    if c == '"':
                        pos = text.index('"', pos + 1)
                    elif c == "{":
                        d += 1
                    elif c == "}":
                        d -= 1
                    pos += 1
                a = text[t.end():pos - 1].strip()
                ap(("attr", a, t.start()))
                continue
            s = t.group()
            ap((k, s, pos))
            pos = t.end()
        ap(("eof", "", n))
        self.i = 0
        self.lastattrs = []

    # -------------------------------------------------- token helpers
    def peek(self, o=0):
        # attributes are transparent except where attrs() is called
        i, n = self.i, 0
        T = self.toks
        while True:
            if T[i][0] == "attr":
                i += 1
                continue
            if n == o:
                return T[i][1] if T[i][0] not in ("str", "chr") else '"'
            n += 1
            i += 1
            if i >= len(T):
                return ""

    def kind(self):
        i = self.i
        while self.toks[i][0] == "attr":
            i += 1
        return self.toks[i][0]

    def adv(self):
        T = self.toks
        while T[self.i][0] == "attr":
            self.lastattrs.append(T[self.i][1])
            self.i += 1
        t = T[self.i]
        self.i += 1
        return t

    def line(self):
        i = min(self.i, len(self.toks) - 1)
        return self.text.count("\n", 0, self.toks[i][2]) + 1

    def err(self, msg):
        raise ParseError(f"{self.fname}:{self.line()}: {msg}, at {self.peek()!r} {self.peek(1)!r}")

    def eat(self, s):
        if self.peek() != s:
            self.err(f"expected {s!r}")
        return self.adv()

    def opt(self, s):
        if self.peek() == s:
            self.adv()
            return True
        return False

    def ident(self):
        if self.kind() != "id":
            if self.kind() == "num":
                return self.adv()[1]
            self.err("expected identifier")
        return self.adv()[1]

    # -------------------------------------------------- top level
    def parse_file(self):
        includes, decls = [], []
        while self.peek() == "include":
            self.adv()
            includes.append(self.adv()[1].strip('@"'))
        while self.kind() != "eof":
            if self.peek() == "include":
                self.adv()
                includes.append(self.adv()[1].strip('@"'))
                continue
            self.decl(decls)
        return includes, decls

    def decl(self, out):
        self.lastattrs = []
        mods = []
        while self.peek() in MODS and not (self.peek(1) in ("(", ":=", ":")):
            mods.append(self.adv()[1])
        t = self.peek()
        line = self.line()
        if t == "module":
            self.adv()
            name = self.ident()
            while self.opt("."):
                name += "." + self.ident()
            refines = facade = None
            mformals = self.formals() if self.peek() == "(" else []
            if self.opt("refines"):
                refines = self.path()
            elif self.opt(":"):
                refines = self.path()
            body = []
            self.eat("{")
            while self.peek() != "}":
                if self.peek() == "include":
                    self.adv()
                    self.adv()
                    continue
                self.decl(body)
            self.eat("}")
            out.append(dict(k="module", name=name, refines=refines, formals=mformals, abstract="abstract" in mods, body=body, line=line,
                            attrs=list(self.lastattrs)))
        elif t == "import":
            self.adv()
            opened = self.opt("opened")
            name = self.ident()
            path, kind = None, None
            if self.opt("="):
                path, kind = self.path(), "="
            elif self.opt(":"):
                path, kind = self.path(), ":"
            elif self.opt("as"):
                path, kind = self.path(), ":"
            else:
                path, kind = [name], "="
                while self.opt("."):
                    path.append(self.ident())
                    name = path[-1]
                self.export_spec()
            self.opt(";")
            out.append(dict(k="import", name=name, path=path, opened=opened, kind=kind, line=line))
        elif t == "export":
            self.adv()
            while self.peek() in ("provides", "reveals", "extends", ",", "*", ".") or (
                    self.kind() == "id" and self.peek() not in DECLKW):
                self.adv()
            self.opt(";")
        elif t in ("datatype", "codatatype"):
            self.adv()
            name = self.ident()
            tps = self.tparams()
            ctors = []
            if self.opt("..."):
                pass
            else:
                self.eat("=")
                self.opt("|")
                while True:
                    while self.peek() in MODS:
                        self.adv()
                    cn = self.ident()
                    fs = []
                    if self.opt("("):
                        while self.peek() != ")":
                            while self.peek() in MODS and self.peek(1) != ":":
                                self.adv()
                            if self.peek(1) == ":":
                                fn = self.ident()
                                self.eat(":")
                            else:
                                fn = None
                            fs.append((fn, self.type()))
                            if not self.opt(","):
                                break
                        self.eat(")")
                    ctors.append((cn, fs))
                    if not self.opt("|"):
                        break
            members = []
            if self.opt("{"):
                while self.peek() != "}":
                    self.decl(members)
                self.eat("}")
            self.opt(";")
            out.append(dict(k="datatype", name=name, tps=tps, ctors=ctors, members=members, co=t == "codatatype", line=line))
        elif t == "newtype":
            self.adv()
            name = self.ident()
            self.eat("=")
            if self.kind() == "id" and self.peek(1) in (":", "|"):
                v = self.ident()
                base = self.type() if self.opt(":") else ("tn", ["int"], [])
                self.eat("|")
                e = self.expr()
            else:
                v, base, e = None, self.type(), None
            self.opt("witness") and self.expr()
            self.opt(";")
            out.append(dict(k="newtype", name=name, tps=[], var=v, base=base, cond=e, line=line))
        elif t == "type":
            self.adv()
            name = self.ident()
            if self.opt("("):      # type X(==)
                self.skip_to(")")
            tps = self.tparams()
            if self.opt("("):
                self.skip_to(")")
            if self.opt("="):
                if self.kind() == "id" and self.peek(1) in (":", "|") and not (self.peek(1) == "|" and False):
                    v = self.ident()
                    base = self.type() if self.opt(":") else ("tn", ["int"], [])
                    self.eat("|")
                    e = self.expr()
                    if self.peek() == "witness":
                        self.adv()
                        self.expr()
                    elif self.peek() == "ghost" and self.peek(1) == "witness":
                        self.adv()
                        self.adv()
                        self.expr()
                    out.append(dict(k="subset", name=name, tps=tps, var=v, base=base, cond=e, line=line))
                else:
                    out.append(dict(k="synonym", name=name, tps=tps, ty=self.type(), line=line))
            else:
                if self.peek() == "{":
                    self.adv()
                    members = []
                    while self.peek() != "}":
                        self.decl(members)
                    self.eat("}")
                out.append(dict(k="opaque", name=name, tps=tps, line=line))
            self.opt(";")
        elif t == "const":
            self.adv()
            name = self.ident()
            ty = self.type() if self.opt(":") else None
            e = self.expr() if self.opt(":=") else None
            self.opt(";")
            out.append(dict(k="const", name=name, ty=ty, e=e, line=line, static="static" in mods))
        elif t == "var":
            self.adv()
            while True:
                name = self.ident()
                self.eat(":")
                out.append(dict(k="field", name=name, ty=self.type(), line=line, mods=mods))
                if not self.opt(","):
                    break
            if self.opt(":="):
                self.expr()
            self.opt(";")
        elif t in ("class", "trait"):
            self.adv()
            name = self.ident()
            tps = self.tparams()
            ext = []
            if self.opt("extends"):
                ext.append(self.type())
                while self.opt(","):
                    ext.append(self.type())
            members = []
            if not self.opt("..."):
                pass
            self.eat("{")
            while self.peek() != "}":
                self.decl(members)
            self.eat("}")
            out.append(dict(k="class", name=name, tps=tps, ext=ext, members=members, line=line))
        elif t in ("function", "predicate", "inductive", "copredicate", "least", "greatest"):
            if t in ("inductive", "least", "greatest"):
                self.adv()
                if self.peek() == "lemma":
                    self.adv()
                    out.append(self.routine("lemma", mods, line))
                    return
            kind = self.adv()[1]
            meth = self.opt("method")
            attrs0 = list(self.lastattrs)
            name = self.ident()
            if name == "operator" and self.peek() == "(":
                self.adv()
                while not self.opt(")"):
                    name += self.adv()[1]
            tps = self.tparams()
            self.hashk()
            params, res, rty = [], None, None
            if self.opt("..."):
                pass
            else:
                params = self.formals()
                if self.opt(":"):
                    while self.peek() in MODS:
                        self.adv()
                    if self.peek() == "(" and self.is_named_result():
                        self.eat("(")
                        while self.peek() in MODS:
                            self.adv()
                        res = self.ident()
                        self.eat(":")
                        rty = self.type()
                        self.eat(")")
                    else:
                        rty = self.type()
            if kind != "function":
                rty = ("tn", ["bool"], [])
            spec = self.specs()
            attrs = list(self.lastattrs)
            body = None
            if self.peek() == "{":
                self.adv()
                if self.peek() == "...":
                    self.adv()
                    self.opt(";")
                    body = None
                elif self.peek() == "}":
                    body = None
                else:
                    body = self.fbx(True, self.expr, True)
                self.eat("}")
            out.append(dict(k="function", name=name, tps=tps, params=params, res=res, rty=rty, body=body, mods=mods, line=line,
                            method=meth, pred=kind != "function", attrs=attrs, **spec))
        elif t in ("lemma", "method", "constructor", "colemma", "iterator"):
            kind = self.adv()[1]
            out.append(self.routine(kind, mods, line))
        else:
            self.err("unexpected declaration")

    def is_named_result(self):
        # "(" already peeked
        o = 1
        while self.peek(o) in MODS:
            o += 1
        return self.peek(o + 1) == ":" and self.peek(o) not in ("(", ")")

    def hashk(self):
        if self.opt("["):
            self.skip_to("]")

    def skip_to(self, close):
        while not self.opt(close):
            self.adv()

    def export_spec(self):
        if self.opt("`"):
            if self.opt("{"):
                self.skip_to("}")
            else:
                self.ident()

    def skip_par(self):
        if self.opt("("):
            d = 1
            while d:
                x = self.adv()[1]
                d += (x == "(") - (x == ")")

    def path(self):
        p = [self.ident()]
        self.skip_par()
        while self.opt("."):
            p.append(self.ident())
        self.export_spec()
        return p

    def tparams(self):
        out = []
        if self.opt("<"):
            while self.peek() != ">":
                while self.peek() in ("+", "-", "*", "!", "="):
                    self.adv()
                out.append(self.ident())
                if self.opt("("):
                    self.skip_to(")")
                if not self.opt(","):
                    break
            self.eat(">")
        return out

    def formals(self):
        out = []
        self.eat("(")
        while self.peek() != ")":
            ms = []
            while self.peek() in MODS and self.peek(1) != ":":
                ms.append(self.adv()[1])
            if self.peek() == "new":
                self.adv()
            name = self.ident()
            ty = None
            if self.opt(":"):
                ty = self.type()
            out.append((name, ty, ms))
            if not self.opt(",") and self.peek() not in MODS:
                break
        self.eat(")")
        return out

    def specs(self):
        return self.fbx(False, self._specs)

    def _specs(self):
        s = dict(requires=[], ensures=[], reads=[], modifies=[], decreases=[])
        while True:
            t = self.peek()
            if t == "free":
                self.adv()
                continue
            if t == "requires" or t == "ensures":
                ln = self.line()
                self.adv()
                if self.kind() == "id" and self.peek(1) == ":" and self.peek(2) != ":":
                    self.adv()
                    self.adv()
                s[t].append(self.expr())
                self.opt(";")
            elif t in ("reads", "modifies"):
                self.adv()
                s[t] += self.frames()
                self.opt(";")
            elif t == "decreases":
                self.adv()
                if self.peek() == "*":
                    self.adv()
                else:
                    s[t] += self.exprs()
                self.opt(";")
            elif t == "invariant":
                self.adv()
                s.setdefault("invariant", []).append(self.expr())
                self.opt(";")
            elif t == "yield":
                self.adv()
            else:
                return s

    def frames(self):
        out = []
        while True:
            if self.peek() == "*":
                self.adv()
            elif self.peek() == "`":
                self.adv()
                self.ident()
            else:
                out.append(self.expr())
                if self.opt("`"):
                    self.ident()
            if not self.opt(","):
                return out

    def routine(self, kind, mods, line):
        attrs = list(self.lastattrs)
        name = "_ctor"
        if self.kind() == "id" and self.peek() not in ("requires", "ensures", "modifies", "decreases"):
            name = self.ident()
        tps = self.tparams()
        self.hashk()
        params, rets = [], []
        if self.opt("..."):
            pass
        else:
            params = self.formals()
            if self.opt("returns") or self.opt("yields"):
                rets = self.formals()
        spec = self.specs()
        attrs += self.lastattrs
        body = None
        if self.peek() == "{":
            body = self.block()
        self.opt(";")
        return dict(k="method", kind=kind, name=name, tps=tps, params=params, rets=rets, body=body, mods=mods, line=line,
                    attrs=attrs, **spec)

    # -------------------------------------------------- types
    def type(self):
        while self.peek() in MODS:
            self.adv()
        t = self.type1()
        while self.peek() in ("->", "~>", "-->"):
            self.adv()
            r = self.type()
            args = t[1] if t[0] == "ttuple" else [t]
            t = ("tfun", args, r)
        return t

    def type1(self):
        if self.opt("("):
            ts = []
            while self.peek() != ")":
                ts.append(self.type())
                if not self.opt(","):
                    break
            self.eat(")")
            if len(ts) == 1:
                return ts[0]
            return ("ttuple", ts)
        names, args = [self.ident()], []
        while True:
            if self.peek() == "<":
                save, a0 = self.i, list(args)
                try:
                    self.adv()
                    while True:
                        args.append(self.type())
                        if not self.opt(","):
                            break
                    self.eat(">")
                except ParseError:      # "e as T < x"
                    self.i, args = save, a0
                    break
            if self.peek() == "." and self.toks[self.i][1] == ".":
                self.adv()
                names.append(self.ident())
                continue
            break
        return ("tn", names, args)

    # -------------------------------------------------- statements
    def block(self):
        pd, self.pdepth, nb, self.nobar = self.pdepth, 0, self.nobar, 0
        self.eat("{")
        out = []
        while self.peek() != "}":
            self.fbx(False, self.stmt, out)
        self.eat("}")
        self.pdepth, self.nobar = pd, nb
        return out

    def stmt(self, out):
        t = self.peek()
        line = self.line()
        if t == "{":
            out.append(("block", self.block(), line))
            return
        if t == ";":
            self.adv()
            return
        if t == "new" and self.peek(1) == ";":
            self.adv()
            self.adv()
            return
        if t == "...":
            self.adv()
            self.opt(";")
            out.append(("skel", line))
            return
        if t in STMT_LIN and self.peek(1) in ("var", "linear", "glinear") or t == "var":
            ms = []
            while self.peek() in STMT_LIN:
                ms.append(self.adv()[1])
            self.eat("var")
            self.varstmt(out, ms, line)
            return
        if t in ("linear", "shared", "glinear", "gshared", "ghost") and self.peek(1) == "match":
            self.adv()
            t = "match"
        if t == "if":
            out.append(self.ifstmt())
            return
        if t == "while":
            self.adv()
            if self.peek() in ("case", "{", "invariant", "decreases"):
                sp = self.specs()
                br = self.opt("{")
                cs = self.guards()
                if br:
                    self.eat("}")
                out.append(("whilecase", cs, sp, line))
                return
            if self.peek() == "*":
                self.adv()
                c = ("star",)
            elif self.peek() == "(" and self.peek(1) == "*" and self.peek(2) == ")":
                self.adv(), self.adv(), self.adv()
                c = ("star",)
            else:
                c = self.expr()
            sp = self.specs()
            body = self.block() if self.peek() == "{" else []
            out.append(("while", c, sp, body, line))
            return
        if t == "match":
            self.adv()
            e = self.expr()
            br = self.opt("{")
            cases = []
            while self.peek() == "case":
                self.adv()
                p = self.pattern()
                self.eat("=>")
                b = []
                while self.peek() not in ("case", "}"):
                    self.stmt(b)
                cases.append((p, b))
            if br:
                self.eat("}")
            out.append(("match", e, cases, line))
            return
        if t == "forall" :
            # statement form
            self.adv()
            par = False
            if self.peek() == "(" and self.kind() == "op":
                save = self.i
                self.adv()
                par = True
            vs = []
            if self.peek() not in ("|", ")", "ensures", "{"):
                vs = self.bvars()
            g = self.expr() if self.opt("|") else None
            if par:
                self.eat(")")
            ens = []
            while self.peek() in ("ensures", "free"):
                self.opt("free")
                self.adv()
                ens.append(self.expr())
                self.opt(";")
            body = self.block() if self.peek() == "{" else None
            out.append(("forall", vs, g, ens, body, line))
            return
        if t == "calc":
            self.calc()
            return
        if t in ("assert", "assume", "expect"):
            self.adv()
            if self.kind() == "id" and self.peek(1) == ":" :
                self.adv()
                self.adv()
            if self.peek() == "*":
                self.adv()
                e = ("bool", True)
            else:
                e = self.expr()
            by = None
            if self.opt("by"):
                by = self.block()
            else:
                if t == "expect" and self.opt(","):
                    self.expr()
                self.opt(";")
            out.append((t, e, by, line))
            return
        if t == "return":
            self.adv()
            rs = []
            if self.peek() != ";":
                rs = self.rhss()
            self.eat(";")
            out.append(("return", rs, line))
            return
        if t == "yield":
            self.adv()
            while self.peek() != ";":
                self.adv()
            self.eat(";")
            return
        if t == "break":
            self.adv()
            lab, n = None, 1
            while self.peek() == "break":
                self.adv()
                n += 1
            if self.kind() == "id":
                lab = self.ident()
            self.eat(";")
            out.append(("break", lab, n, line))
            return
        if t == "label":
            self.adv()
            lab = self.ident()
            self.eat(":")
            b = []
            self.stmt(b)
            out.append(("label", lab, b, line))
            return
        if t == "print":
            self.adv()
            self.exprs()
            self.eat(";")
            return
        if t == "reveal" and self.peek(1) != "(":
            self.adv()
            self.exprs()
            self.eat(";")
            return
        if t == "modify":
            self.adv()
            self.frames()
            if self.peek() == "{":
                self.block()
            else:
                self.eat(";")
            return
        # update or call
        lhs = [self.lhs_expr()]
        while self.opt(","):
            lhs.append(self.lhs_expr())
        if self.opt(":="):
            r = self.rhss()
            self.eat(";")
            out.append(("assign", lhs, r, line))
        elif self.opt(":|"):
            self.opt("assume")
            e = self.expr()
            self.eat(";")
            out.append(("such", lhs, e, line))
        elif self.opt(":-"):
            r = self.rhss()
            self.eat(";")
            out.append(("assignor", lhs, r, line))
        else:
            self.eat(";")
            out.append(("call", lhs[0], line))

    def lhs_expr(self):
        while self.peek() in ("inout", "linear", "shared", "glinear", "ghost", "gshared"):
            if self.peek(1) in (":=", ",", ".", "["):
                break
            self.adv()
        return self.expr()

    def varstmt(self, out, ms, line):
        pats = []
        while True:
            while self.peek() in STMT_LIN:
                self.adv()
            if self.kind() == "id" and self.peek(1) not in ("(", ".", "<") :
                n = self.ident()
                ty = self.type() if self.opt(":") else None
                pats.append(("pv", n, ty))
            else:
                pats.append(self.pattern())
            if not self.opt(","):
                break
        if self.opt(":="):
            out.append(("var", pats, self.rhss(), ms, line))
        elif self.opt(":|"):
            self.opt("assume")
            out.append(("varsuch", pats, self.expr(), ms, line))
        elif self.opt(":-"):
            out.append(("varor", pats, self.rhss(), ms, line))
        else:
            out.append(("var", pats, None, ms, line))
        self.eat(";")

    def rhss(self):
        out = [self.rhs()]
        while self.opt(","):
            out.append(self.rhs())
        return out

    def rhs(self):
        if self.peek() == "new":
            self.adv()
            if self.peek() == "[":
                ty = None
            else:
                # type, maybe with constructor call
                ty = self.type()
            if self.opt("["):
                if self.peek() == "]":
                    self.adv()
                    dims = [None]
                else:
                    dims = self.exprs()
                    self.eat("]")
                init = None
                if self.opt("["):
                    init = ("disp", [] if self.peek() == "]" else self.exprs())
                    self.eat("]")
                elif self.opt("("):
                    init = ("fun", self.expr())
                    self.eat(")")
                return ("newarr", ty, dims, init)
            args = None
            if self.opt("("):
                args = self.args()
            return ("newobj", ty, args)
        if self.peek() == "*" and self.peek(1) in (";", ","):
            self.adv()
            return ("star",)
        return self.expr()

    def ifstmt(self):
        line = self.line()
        self.eat("if")
        if self.peek() == "case" or (self.peek() == "{" and self.peek(1) == "case"):
            br = self.opt("{")
            cs = self.guards()
            if br:
                self.eat("}")
            return ("ifcase", cs, line)
        c = None
        if self.peek() == "*":
            self.adv()
            c = ("star",)
        elif self.peek() == "(" and self.peek(1) == "*" and self.peek(2) == ")":
            self.adv(), self.adv(), self.adv()
            c = ("star",)
        else:
            c = self.guard()
        th = self.block()
        el = None
        if self.opt("else"):
            if self.peek() == "if":
                el = [self.ifstmt()]
            else:
                el = self.block()
        return ("if", c, th, el, line)

    def guard(self):
        # binding guard  x, y :| P
        save = self.i
        if self.kind() == "id" and self.peek() not in EXPRKW:
            try:
                vs = self.bvars()
                if self.opt(":|"):
                    return ("such?", vs, self.expr())
            except ParseError:
                pass
            self.i = save
        return self.expr()

    def guards(self):
        out = []
        while self.opt("case"):
            c = self.guard()
            self.eat("=>")
            b = []
            while self.peek() not in ("case", "}"):
                self.stmt(b)
            out.append((c, b))
        return out

    def calc(self):
        self.eat("calc")
        while self.peek() != "{":
            self.adv()
        d = 0
        while True:
            t = self.adv()[1]
            if t == "{":
                d += 1
            elif t == "}":
                d -= 1
                if d == 0:
                    break

    # -------------------------------------------------- expressions
    def exprs(self):
        out = [self.expr()]
        while self.opt(","):
            out.append(self.expr())
        return out

    fb = False

    def fbx(self, v, f, *a):
        s, self.fb = self.fb, v
        try:
            return f(*a)
        finally:
            self.fb = s

    def expr(self, semi=False):
        e = self.equiv()
        if semi and self.peek() == ";" and self.peek(1) not in ("requires", "ensures", "decreases", "reads", "modifies", "case", "invariant") and self.peek(1) not in DECLKW:
            # lemma call as a statement before the value
            self.adv()
            if self.peek() in ("}", ")"):
                return e
            return self.expr(semi=True)
        return e

    def equiv(self):
        a = self.implies()
        while self.peek() == "<==>":
            self.adv()
            a = ("bin", "<==>", a, self.implies())
        return a

    def implies(self):
        a = self.logical()
        if self.peek() == "==>":
            self.adv()
            return ("bin", "==>", a, self.implies())
        while self.peek() == "<==":
            self.adv()
            a = ("bin", "==>", self.logical(), a)
        return a

    def logical(self):
        t = self.peek()
        if t in ("&&", "||"):
            op = t
            self.adv()
            a = self.rel()
            xs = [a]
            while self.peek() == op:
                self.adv()
                xs.append(self.rel())
            return self.fold(op, xs)
        a = self.rel()
        while self.peek() in ("&&", "||"):
            op = self.peek()
            xs = [a]
            while self.peek() == op:
                self.adv()
                xs.append(self.rel())
            a = self.fold(op, xs)
        return a

    def fold(self, op, xs):
        return xs[0] if len(xs) == 1 else (("and" if op == "&&" else "or"), xs)

    def rel(self):
        a = self.shift()
        ops, es = [], [a]
        while True:
            t = self.peek()
            if t in ("==", "!=", "<", "<=", ">", ">=", "!!", "in"):
                self.adv()
                if t == "==" and self.peek() == "#":
                    self.adv()
                    self.hashk()
                ops.append(t)
                es.append(self.shift())
            elif t == "!in":
                self.adv()
                ops.append(t)
                es.append(self.shift())
            elif t == "!" and self.peek(1) == "in":
                self.adv()
                self.adv()
                ops.append("!in")
                es.append(self.shift())
            else:
                break
        if not ops:
            return a
        if len(ops) == 1:
            return ("bin", ops[0], es[0], es[1])
        return ("chain", ops, es)

    def shift(self):
        a = self.term()
        while True:
            if self.peek() == "<<":
                self.adv()
                a = ("bin", "<<", a, self.term())
            elif self.peek() == ">" and self.peek(1) == ">" and self.adjacent():
                self.adv()
                self.adv()
                a = ("bin", ">>", a, self.term())
            else:
                return a

    def adjacent(self):
        i = self.i
        while self.toks[i][0] == "attr":
            i += 1
        return self.toks[i + 1][2] == self.toks[i][2] + 1

    def term(self):
        a = self.factor()
        while self.peek() in ("+", "-"):
            op = self.adv()[1]
            a = ("bin", op, a, self.factor())
        return a

    def factor(self):
        a = self.bv()
        while self.peek() in ("*", "/", "%"):
            op = self.adv()[1]
            a = ("bin", op, a, self.bv())
        return a

    def bv(self):
        a = self.asx()
        while self.peek() in ("&", "^") or (self.peek() == "|" and self.in_bv()):
            op = self.adv()[1]
            a = ("bin", op, a, self.asx())
        return a

    def in_bv(self):
        # a bare | between operands: bit-or, unless it closes |..| or opens a comprehension range
        return self.nobar == 0

    nobar = 0

    def asx(self):
        a = self.unary()
        while self.peek() == "as" or (self.peek() == "is" and False):
            self.adv()
            a = ("as", a, self.type())
        return a

    def unary(self):
        t = self.peek()
        if t == "-":
            self.adv()
            return ("un", "-", self.unary())
        if t == "!":
            self.adv()
            return ("un", "!", self.unary())
        return self.suffix(self.primary())

    def nest(self, f, *a):
        s = self.nobar
        self.nobar = 0
        try:
            return f(*a)
        finally:
            self.nobar = s

    pdepth = 0

    def inpar(self, f, *a):
        self.pdepth += 1
        try:
            return self.nest(f, *a)
        finally:
            self.pdepth -= 1

    def bars(self, f, *a):
        s = self.nobar
        self.nobar = 1
        try:
            return f(*a)
        finally:
            self.nobar = s

    def args(self):
        return self.inpar(self._args)

    def _args(self):
        out = []
        while self.peek() != ")":
            io = False
            while self.peek() in ("inout", "linear", "shared", "glinear", "ghost", "gshared", "ginout") and self.peek(1) not in (",", ")", "."):
                io = io or self.peek() in ("inout", "ginout")
                self.adv()
            e = self.expr()
            if self.peek() == ":=" :
                self.adv()
                e = self.expr()
            out.append(("inout", e) if io else e)
            if not self.opt(","):
                break
        self.eat(")")
        return out

    def suffix(self, e):
        while True:
            t = self.peek()
            if t == ".":
                self.adv()
                if self.opt("("):
                    ups = []
                    while self.peek() != ")":
                        n = self.ident()
                        self.eat(":=")
                        ups.append((n, self.nest(self.expr)))
                        if not self.opt(","):
                            break
                    self.eat(")")
                    e = ("upd", e, ups)
                else:
                    if self.kind() == "num":
                        n = self.adv()[1]
                        for part in n.split("."):
                            e = ("dot", e, part)
                    else:
                        e = ("dot", e, self.ident())
                    e = self.generic(e)
            elif t == "(":
                ln = self.line()
                self.adv()
                e = ("call", e, self.args(), ln)
            elif t == "[":
                self.adv()
                e = self.nest(self.index, e)
            elif t == "#" :
                self.adv()
                self.hashk()
            elif t == "@":
                self.adv()
                self.ident()
                e = ("unsup", "label-at")
            else:
                return e

    def generic(self, e):
        if self.peek() == "<":
            save = self.i
            try:
                self.adv()
                ts = [self.type()]
                while self.opt(","):
                    ts.append(self.type())
                self.eat(">")
                if self.peek() in ("(", ")", "]", "}", ";", ",", ".", "==", "!=", "&&", "||", "==>", "<==>", "[", "+", "::", ":=", "|", "then", "else"):
                    if self.peek() == "(" or self.peek() in (")", ",", ";", ".", "==", "}", "!=", "&&", "==>", "<==>"):
                        return ("inst", e, ts)
            except ParseError:
                pass
            self.i = save
        return e

    def index(self, e):
        if self.opt(".."):
            if self.opt("]"):
                return ("slice", e, None, None)
            b = self.expr()
            self.eat("]")
            return ("slice", e, None, b)
        a = self.expr()
        if self.opt(":="):
            v = self.expr()
            xs = [(a, v)]
            self.eat("]")
            return ("sequpd", e, a, v)
        if self.opt(".."):
            if self.opt("]"):
                return ("slice", e, a, None)
            b = self.expr()
            if self.peek() == ":":
                self.err("slices")
            self.eat("]")
            return ("slice", e, a, b)
        if self.opt(","):
            es = [a] + self.exprs()
            self.eat("]")
            return ("mindex", e, es)
        self.eat("]")
        return ("index", e, a)

    def bvars(self):
        out = []
        while True:
            while self.peek() in STMT_LIN:
                self.adv()
            n = self.ident()
            ty = self.type() if self.opt(":") else None
            out.append((n, ty))
            if not self.opt(","):
                return out

    def primary(self):
        k = self.kind()
        t = self.peek()
        if k == "num":
            s = self.adv()[1].replace("_", "")
            if s.startswith("0x"):
                return ("num", int(s, 16))
            if "." in s:
                from fractions import Fraction
                return ("num", Fraction(s))
            return ("num", int(s))
        if k == "str":
            s = self.adv()[1]
            return ("str", s[2:-1].replace('""', '"') if s[0] == "@" else unesc(s[1:-1]))
        if k == "chr":
            s = unesc(self.adv()[1][1:-1])
            return ("chr", s)
        if t == "(":
            if self.is_lambda():
                ps = self.formals()
                return self.lam([(n, ty) for n, ty, _ in ps])
            self.adv()
            return self.inpar(self.paren)
        if t == "|":
            self.adv()
            e = self.bars(self.expr)
            self.eat("|")
            return ("len", e)
        if t == "[":
            self.adv()
            es = [] if self.peek() == "]" else self.nest(self.exprs)
            self.eat("]")
            return ("seq", es)
        if t == "{":
            self.adv()
            es = [] if self.peek() == "}" else self.nest(self.exprs)
            self.eat("}")
            return ("setd", es)
        if k != "id":
            self.err("expected expression")
        if t in ("linear", "shared", "glinear", "ghost", "gshared", "inout") and (
                self.peek(1) in ("var", "if", "match", "(", "linear") or self.toks_is_id(1)):
            if not (self.peek(1) == "(" and False):
                self.adv()
                return self.primary_sfx()
        if t == "true" or t == "false":
            self.adv()
            return ("bool", t == "true")
        if t == "null":
            self.adv()
            return ("null",)
        if t == "this" or t == "self" and False:
            self.adv()
            return ("this",)
        if t == "if":
            return self.ifexpr()
        if t == "match":
            self.adv()
            e = self.nest(self.expr)
            br = self.opt("{")
            cases = []
            while self.opt("case"):
                p = self.pattern()
                self.eat("=>")
                cases.append((p, self.nest(self.expr, True) if br else self.nest(self.expr)))
            if br:
                self.eat("}")
            return ("match", e, cases)
        if t in ("forall", "exists"):
            self.adv()
            vs = self.bvars()
            g = None
            if self.opt("|"):
                g = self.nest(self.expr)
            self.eat("::")
            b = self.expr_same()
            return (t, vs, g, b)
        if t in ("set", "iset") and self.peek(1) not in ("{", "<"):
            self.adv()
            vs = self.bvars()
            g = None
            if self.opt("|"):
                g = self.expr_same()
            b = None
            if self.opt("::"):
                b = self.expr_same()
            return ("setc", vs, g, b, t == "iset")
        if t in ("set", "iset") and self.peek(1) == "{":
            self.adv()
            return self.primary()
        if t in ("map", "imap") and self.peek(1) == "[":
            self.adv()
            self.adv()
            ps = []
            while self.peek() != "]":
                a = self.nest(self.expr)
                self.eat(":=")
                ps.append((a, self.nest(self.expr)))
                if not self.opt(","):
                    break
            self.eat("]")
            return ("mapd", ps, t == "imap")
        if t in ("map", "imap") and self.toks_is_id(1):
            self.adv()
            vs = self.bvars()
            g = None
            if self.opt("|"):
                g = self.expr_same()
            self.eat("::")
            b = self.expr_same()
            key = None
            if self.peek() == ":=":
                self.adv()
                key, b = b, self.expr_same()
            return ("mapc", vs, g, b, key, t == "imap")
        if t == "multiset":
            self.adv()
            if self.opt("{"):
                es = [] if self.peek() == "}" else self.nest(self.exprs)
                self.eat("}")
                return ("msd", es)
            self.eat("(")
            e = self.nest(self.expr)
            self.eat(")")
            return ("mset", e)
        if t == "seq" and self.peek(1) in ("(", "<"):
            self.adv()
            if self.opt("<"):
                self.type()
                self.eat(">")
            self.eat("(")
            n = self.nest(self.expr)
            self.eat(",")
            f = self.inpar(self.expr)
            self.eat(")")
            return ("seqc", n, f)
        if t == "var" :
            self.adv()
            return self.letexpr()
        if t in ("assert", "assume"):
            self.adv()
            if self.kind() == "id" and self.peek(1) == ":":
                self.adv()
                self.adv()
            e = self.fbx(False, self.nest, self.expr)
            if self.opt("by"):
                self.block()
            else:
                self.eat(";")
            b = self.nest(self.expr, True)
            return b
        if t == "reveal" and self.peek(1) != "(":
            self.adv()
            self.nest(self.exprs)
            self.eat(";")
            return self.nest(self.expr, True)
        if t == "calc":
            self.calc()
            return self.nest(self.expr, True)
        if t == "old" and self.peek(1) in ("(", "@"):
            self.adv()
            if self.opt("@"):
                self.ident()
            self.eat("(")
            e = self.nest(self.expr)
            self.eat(")")
            return ("old", e)
        if t in ("fresh", "allocated", "unchanged") and self.peek(1) in ("(", "@"):
            self.adv()
            if self.opt("@"):
                self.ident()
            self.eat("(")
            a = self.nest(self.frames)
            self.eat(")")
            return (t, a)
        if t == "new":
            return self.rhs()
        # identifier, maybe lambda
        n = self.ident()
        if not self.nolam and (self.peek() == "=>" or ((self.pdepth or self.fb) and self.peek() in ("requires", "reads"))):
            return self.lam([(n, None)], True)
        if self.peek() == ":" and False:
            pass
        return self.generic(("id", n))

    nolam = 0

    def primary_sfx(self):
        return self.suffix(self.primary())

    def toks_is_id(self, o):
        i, n = self.i, 0
        while True:
            if self.toks[i][0] == "attr":
                i += 1
                continue
            if n == o:
                return self.toks[i][0] == "id" and self.toks[i][1] not in ("in", "as", "then", "else", "requires", "ensures", "case", "by")
            n += 1
            i += 1

    def expr_same(self):
        return self.expr(True) if False else self.expr()

    def lam(self, ps, eaten=False):
        reqs = []
        while self.peek() in ("requires", "reads"):
            k = self.adv()[1]
            nl, self.nolam = self.nolam, 1
            if k == "requires":
                reqs.append(self.expr())
            else:
                self.frames()
            self.nolam = nl
        self.eat("=>")
        return ("lam", ps, reqs, self.nest(self.expr))

    def is_lambda(self):
        # ( id [: type] , ...) [requires/reads..] =>
        if self.nolam:
            return False
        save = self.i
        try:
            self.eat("(")
            while self.peek() != ")":
                self.ident()
                if self.opt(":"):
                    self.type()
                if not self.opt(","):
                    break
            self.eat(")")
            return self.peek() in ("=>", "requires", "reads")
        except ParseError:
            return False
        finally:
            self.i = save

    def paren(self):
        s = self.nolam
        self.nolam = 0
        try:
            if self.opt(")"):
                return ("tuple", [])
            es = []
            while True:
                while self.peek() in ("linear", "shared", "glinear", "gshared") :
                    self.adv()
                es.append(self.fbx(True, self.expr, True))
                if not self.opt(","):
                    break
            self.eat(")")
            return es[0] if len(es) == 1 else ("tuple", es)
        finally:
            self.nolam = s

    def ifexpr(self):
        self.eat("if")
        c = self.nest(self.guard)
        self.eat("then")
        a = self.fbx(True, self.nest, self.expr, True)
        self.eat("else")
        if self.peek() == "if":
            b = self.suffix(self.ifexpr())
            # operators may follow: keep it simple, re-enter through expr is not needed in this code base
            return ("ite", c, a, b)
        b = self.expr(self.fb)
        return ("ite", c, a, b)

    def letexpr(self):
        pats = []
        while True:
            while self.peek() in STMT_LIN:
                self.adv()
            if self.kind() == "id" and self.peek(1) not in ("(", ".", "<"):
                n = self.ident()
                ty = self.type() if self.opt(":") else None
                pats.append(("pv", n, ty))
            else:
                pats.append(self.pattern())
            if not self.opt(","):
                break
        if self.opt(":|"):
            e = self.fbx(False, self.nest, self.expr)
            self.eat(";")
            return ("letsuch", pats, e, self.expr_let())
        if self.opt(":-"):
            e = self.fbx(False, self.nest, self.expr)
            self.eat(";")
            return ("letor", pats, e, self.expr_let())
        self.eat(":=")
        es = [self.fbx(False, self.nest, self.expr)]
        while self.opt(","):
            es.append(self.fbx(False, self.nest, self.expr))
        self.eat(";")
        return ("let", pats, es, self.expr_let())

    def expr_let(self):
        return self.nest(self.expr, self.fb) if self.nobar == 0 else self.expr()

    def pattern(self):
        while self.peek() in STMT_LIN:
            self.adv()
        if self.opt("("):
            ps = []
            while self.peek() != ")":
                ps.append(self.pattern())
                if not self.opt(","):
                    break
            self.eat(")")
            return ("ptup", ps)
        if self.kind() == "num" or self.peek() in ("true", "false", "-"):
            neg = self.opt("-")
            v = self.adv()[1]
            if v in ("true", "false"):
                return ("plit", v == "true")
            v = int(v.replace("_", ""), 0)
            return ("plit", -v if neg else v)
        n = self.ident()
        while self.opt("."):
            n = self.ident()
        if self.peek() == "<":
            self.generic(("id", n))
        if self.opt("("):
            ps = []
            while self.peek() != ")":
                ps.append(self.pattern())
                if not self.opt(","):
                    break
            self.eat(")")
            return ("pc", n, ps)
        ty = self.type() if self.opt(":") else None
        return ("pv", n, ty)


DECLKW = {"function", "predicate", "lemma", "method", "datatype", "codatatype", "type", "newtype", "const", "class", "trait", "import",
          "module", "export", "abstract", "ghost", "static", "protected", "inductive", "copredicate", "twostate", "linear", "shared", "glinear",
          "constructor", "gshared", "least", "greatest"}
EXPRKW = {"forall", "exists", "if", "match", "var", "set", "iset", "map", "imap", "seq", "multiset", "old", "true", "false", "null", "this",
          "assert", "assume", "reveal", "calc", "fresh", "new"}


def unesc(s):
    return re.sub(r"\\(u[0-9a-fA-F]{4}|.)", lambda m: chr(int(m[1][1:], 16)) if m[1][0] == "u" else
                  {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m[1], m[1]), s)


def parse_file(path):
    return P(open(path, encoding="utf-8").read(), path).parse_file()
