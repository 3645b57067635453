"""Lazy loader of a VIR dump: indexes the top-level forms, parses a function or datatype only when it is asked for."""
import re, mmap

TOK = re.compile(rb'\s*(?:(\()|(\))|("(?:[^"\\]|\\.)*")|([^\s()"]+))')


def parse(buf, pos=0):
    """One s-expression: lists as Python lists, atoms as str, strings as Python str prefixed by a quote."""
    stack, cur = [], None
    m = TOK.match
    while True:
        t = m(buf, pos)
        pos = t.end()
        k = t.lastindex
        if k == 1:
            new = []
            if cur is not None:
                cur.append(new); stack.append(cur)
            cur = new
        elif k == 2:
            if not stack: return cur, pos
            cur = stack.pop()
        elif k == 3:
            cur.append(t.group(3)[:-1].decode())     # keeps the leading quote as a marker
        else:
            cur.append(t.group(4).decode())


HEAD = re.compile(rb'^\(@ "([^"]*)" \((Function|Datatype|Trait|TraitImpl|AssocTypeImpl)\b', re.M)
NAME = re.compile(rb':name \(Fun :path\s+([^\s()]+)')
DNAME = re.compile(rb':name \(Dt Path\s+([^\s()]+)\s*\)')


class Crate:
    def __init__(self, path):
        self.data = open(path, "rb").read()
        self.fn_off, self.dt_off, self.traits, self.impls, self.assoc = {}, {}, [], [], []
        heads = list(HEAD.finditer(self.data))
        for i, h in enumerate(heads):
            s = h.start()
            k = h.group(2)
            if k == b"Function":
                n = NAME.search(self.data, s, s + 4000).group(1).decode()
                self.fn_off[n] = s
            elif k == b"Datatype":
                n = DNAME.search(self.data, s, s + 1000)
                if n: self.dt_off[n.group(1).decode()] = s
            elif k == b"TraitImpl": self.impls.append(s)
            elif k == b"AssocTypeImpl": self.assoc.append(s)
            else: self.traits.append(s)
        self._fn, self._dt = {}, {}

    def raw(self, off):
        return parse(self.data, off)[0]

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            off = self.fn_off.get(name)
            if off is None: return None
            f = self._fn[name] = Fn(self.raw(off))
        return f

    def dt(self, name):
        d = self._dt.get(name)
        if d is None:
            d = self._dt[name] = kw(self.raw(self.dt_off[name])[2])
        return d


def kw(lst):
    """The :key value pairs of a list."""
    d, i = {}, 1
    while i < len(lst):
        if isinstance(lst[i], str) and lst[i].startswith(":"):
            d[lst[i][1:]] = lst[i + 1]; i += 2
        else: i += 1
    return d


class Fn:
    def __init__(self, form):
        self.span = form[1][1:]
        k = kw(form[2])
        self.k = k
        self.name = k["name"][2]
        self.mode = k["mode"]
        self.typ_params = k["typ_params"]
        self.params = [(p[2][2][1][1:], p[2][2], kw(p[2])["typ"]) for p in k["params"]]
        self.body = k["body"]
        self.require = k["require"]
        self.ensure = k["ensure"]
        self.kind = k["kind"]
        self.ret = kw(k["ret"][2])
