"""Solidity front end: the subset of the language the EVM sources use, to syntax trees.

A construct outside the subset raises Unsupported: the check then gives no verdict instead of a wrong one."""
import os
import re

TOK = re.compile(r"""
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<hexstr>hex"[0-9a-fA-F_]*")
|(?P<str>"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')
|(?P<num>0x[0-9a-fA-F_]+|\d[\d_]*(?:\.\d+)?(?:[eE]\d+)?)
|(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
|(?P<op>>>>=|<<=|>>=|>>>|\*\*|\+\+|--|=>|->|:=|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\|=|&=|\^=|<<|>>|[-+*/%=<>!&|^~?:;,.(){}\[\]])
""", re.X | re.S)


class Unsupported(Exception):
    pass


def lex(src, fname):
    out, i, line = [], 0, 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Unsupported(f"{fname}:{line}: character {src[i]!r}")
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group(), line))
        line += m.group().count("\n")
        i = m.end()
    out.append(("eof", "", line))
    return out


ELEM = re.compile(r"^(u?int\d*|bytes\d*|bool|address|string|byte)$")
BIN = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("|",), ("^",), ("&",), ("<<", ">>", ">>>"), ("+", "-"), ("*", "/", "%")]
ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")
LOC = ("memory", "storage", "calldata")


class N:
    """a syntax node"""
    __slots__ = ("k", "line", "d")

    def __init__(self, k, line, **d):
        self.k, self.line, self.d = k, line, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"{self.k}({', '.join(f'{a}={b!r}' for a, b in self.d.items())})"


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def loop(line, init, c, post, body):
    """a loop; one that starts by leaving under a condition is a loop while that condition does not hold"""
    if c is not None and c.k == "bool" and c.v:
        c = None
    if c is None and body.k == "block" and body.ss and body.ss[0].k == "if" and body.ss[0].b is None:
        f = body.ss[0]
        a = f.a.ss[0] if f.a.k == "block" and len(f.a.ss) == 1 else f.a
        if a.k == "break":
            g = f.c
            c = N("bin", g.line, op=NEG[g.op], l=g.l, r=g.r) if g.k == "bin" and g.op in NEG else N("un", g.line, op="!", e=g)
            body = N("block", body.line, ss=body.ss[1:])
    return N("for", line, init=init, c=c, post=post, body=body)


class Fn:
    def __init__(self, name, kind, params, rets, mods, vis, mut, virtual, body, contract, file, line):
        self.name, self.kind, self.params, self.rets, self.mods = name, kind, params, rets, mods
        self.vis, self.mut, self.virtual, self.body, self.contract, self.file, self.line = vis, mut, virtual, body, contract, file, line

    @property
    def key(self):
        return (self.contract + "." if self.contract else "") + self.name


class Contract:
    def __init__(self, kind, name, bases, file):
        self.kind, self.name, self.bases, self.file = kind, name, bases, file
        self.fns, self.vars, self.structs, self.enums, self.using, self.mods, self.udvts = [], {}, {}, {}, [], {}, {}
        self.ctor = None


class Parser:
    def __init__(self, src, fname, unit):
        self.t, self.i, self.f, self.u = lex(src, fname), 0, fname, unit
        self.cur = None

    # ---- tokens
    @property
    def v(self):
        return self.t[self.i][1]

    @property
    def kind(self):
        return self.t[self.i][0]

    @property
    def line(self):
        return self.t[self.i][2]

    def la(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)][1]

    def bad(self, what="construct"):
        raise Unsupported(f"{self.f}:{self.line}: {what} near {self.v!r}")

    def take(self, v=None):
        x = self.v
        if v is not None and x != v:
            self.bad(f"expected {v!r}")
        self.i += 1
        return x

    def opt(self, *vs):
        if self.v in vs and self.kind in ("op", "id"):
            return self.take()
        return None

    def ident(self):
        if self.kind != "id":
            self.bad("identifier expected")
        return self.take()

    # ---- top level
    def unit(self):
        u = self.u
        while self.kind != "eof":
            x = self.v
            if x in ("pragma", "import"):
                while self.take() != ";":
                    pass
            elif x in ("contract", "library", "interface", "abstract"):
                self.contract()
            elif x == "type":
                self.udvt(u.udvts)
            elif x == "using":
                u.using.append(self.using())
            elif x == "function":
                u.fns.append(self.function(None))
            elif x == "error" or x == "event":
                self.skip_decl()
            elif x == "struct":
                self.struct(u.structs, "")
            elif x == "enum":
                self.enum(u.enums, "")
            else:
                ty = self.type()
                if self.opt("constant") is None:
                    self.bad()
                n = self.ident()
                self.take("=")
                e = self.expr()
                self.take(";")
                u.consts[n] = (ty, e)

    def skip_decl(self):
        while self.take() != ";":
            pass

    def udvt(self, into):
        self.take("type")
        n = self.ident()
        if self.take() != "is":
            self.bad()
        into[n] = self.type()
        self.take(";")

    def using(self):
        self.take("using")
        ops, lib = {}, None
        if self.opt("{"):
            while True:
                n = self.path()
                if self.opt("as"):
                    ops[self.take()] = n
                else:
                    ops[n.split(".")[-1]] = n
                if not self.opt(","):
                    break
            self.take("}")
        else:
            lib = self.path()
        self.take("for")
        ty = None if self.opt("*") else self.type()
        self.opt("global")
        self.take(";")
        return (lib, ops, ty)

    def path(self):
        n = self.ident()
        while self.v == "." :
            self.take()
            n += "." + self.ident()
        return n

    def struct(self, into, q):
        self.take("struct")
        n = self.ident()
        self.take("{")
        fs = []
        while not self.opt("}"):
            ty = self.type()
            fs.append((self.ident(), ty))
            self.take(";")
        into[n] = fs

    def enum(self, into, q):
        self.take("enum")
        n = self.ident()
        self.take("{")
        vs = []
        while not self.opt("}"):
            vs.append(self.ident())
            self.opt(",")
        into[n] = vs

    def contract(self):
        self.opt("abstract")
        kind = self.take()
        name = self.ident()
        bases = []
        if self.opt("is"):
            while True:
                bases.append(self.path())
                if self.v == "(":
                    self.args()
                if not self.opt(","):
                    break
        c = self.cur = Contract(kind, name, bases, self.f)
        self.u.contracts[name] = c
        self.take("{")
        while not self.opt("}"):
            x = self.v
            if x == "struct":
                self.struct(c.structs, name)
            elif x == "enum":
                self.enum(c.enums, name)
            elif x == "using":
                c.using.append(self.using())
            elif x == "type" and self.la(2) == "is":
                self.udvt(c.udvts)
            elif x in ("error", "event"):
                self.skip_decl()
            elif x == "modifier":
                ln = self.line
                self.take()
                n = self.ident()
                ps = self.params() if self.v == "(" else []
                while self.opt("virtual", "override"):
                    if self.v == "(":
                        self.skip_parens()
                c.mods[n] = Fn(n, "modifier", ps, [], [], "internal", "", False, None if self.opt(";") else self.block(), name, self.f, ln)
            elif x in ("function", "receive", "fallback") and (x == "function" or self.la() == "("):
                c.fns.append(self.function(name))
            elif x == "constructor":
                c.ctor = self.function(name)
            else:
                ln = self.line
                ty = self.type()
                quals = set()
                while self.v in ("public", "private", "internal", "constant", "immutable", "override"):
                    quals.add(self.take())
                n = self.ident()
                e = self.expr() if self.opt("=") else None
                self.take(";")
                c.vars[n] = (ty, quals, e, ln)
        self.cur = None

    def params(self):
        self.take("(")
        ps = []
        while not self.opt(")"):
            ty = self.type()
            loc = None
            while self.v in LOC or self.v in ("indexed", "payable"):
                x = self.take()
                loc = x if x in LOC else loc
            ps.append((ty, loc, self.ident() if self.kind == "id" else None))
            self.opt(",")
        return ps

    def function(self, cname):
        ln = self.line
        kind = self.take()
        name = self.ident() if kind == "function" else kind
        ps = self.params()
        rets, mods, vis, mut, virt = [], [], "internal", "", False
        while True:
            x = self.v
            if x in ("external", "public", "internal", "private"):
                vis = self.take()
            elif x in ("view", "pure", "payable"):
                mut = self.take()
            elif x == "virtual":
                virt = True
                self.take()
            elif x == "override":
                self.take()
                if self.v == "(":
                    self.skip_parens()
            elif x == "returns":
                self.take()
                rets = self.params()
            elif self.kind == "id":
                n = self.path()
                mods.append((n, self.args()[0] if self.v == "(" else []))
            else:
                break
        body = None if self.opt(";") else self.block()
        return Fn(name, kind, ps, rets, mods, vis, mut, virt, body, cname, self.f, ln)

    def skip_parens(self):
        n = 0
        while True:
            x = self.take()
            n += x == "("
            n -= x == ")"
            if n == 0:
                return

    # ---- types
    def type(self):
        if self.v == "mapping":
            self.take()
            self.take("(")
            k = self.type()
            if self.kind == "id":
                self.take()
            self.take("=>")
            v = self.type()
            if self.kind == "id":
                self.take()
            self.take(")")
            t = ("map", k, v)
        else:
            n = self.path()
            if n == "address" and self.v == "payable":
                self.take()
            t = ("name", n)
        while self.v == "[":
            self.take()
            n = None if self.v == "]" else self.expr()
            self.take("]")
            t = ("arr", t, n)
        return t

    # ---- statements
    def block(self):
        ln = self.line
        self.take("{")
        ss = []
        while not self.opt("}"):
            ss.append(self.stmt())
        return N("block", ln, ss=ss)

    def stmt(self):
        ln, x = self.line, self.v
        if x == "{":
            return self.block()
        if x == "unchecked" and self.la() == "{":
            self.take()
            return N("unchecked", ln, body=self.block())
        if x == "if":
            self.take()
            self.take("(")
            c = self.expr()
            self.take(")")
            a = self.stmt()
            b = self.stmt() if self.opt("else") else None
            return N("if", ln, c=c, a=a, b=b)
        if x == "for":
            self.take()
            self.take("(")
            init = None if self.opt(";") else self.simple()
            c = None if self.v == ";" else self.expr()
            self.take(";")
            post = None if self.v == ")" else self.expr()
            self.take(")")
            return loop(ln, init, c, post, self.stmt())
        if x == "while":
            self.take()
            self.take("(")
            c = self.expr()
            self.take(")")
            return loop(ln, None, c, None, self.stmt())
        if x == "do":
            self.take()
            b = self.stmt()
            self.take("while")
            self.take("(")
            c = self.expr()
            self.take(")")
            self.take(";")
            return N("dowhile", ln, c=c, body=b)
        if x in ("break", "continue"):
            self.take()
            self.take(";")
            return N(x, ln)
        if x == "return":
            self.take()
            e = None if self.v == ";" else self.expr()
            self.take(";")
            return N("return", ln, e=e)
        if x == "emit":
            self.take()
            e = self.expr()
            self.take(";")
            return N("emit", ln, e=e)
        if x == "revert" and (self.la() != "(" or True) and self.la() not in (".", "="):
            self.take()
            if self.kind == "id":
                self.expr()
            elif self.v == "(":
                self.args()
            self.take(";")
            return N("revert", ln)
        if x == "assembly":
            self.take()
            if self.v == "(":
                self.skip_parens()
            elif self.kind == "str":
                self.take()
            return self.assembly(ln)
        if x == "_" and self.la() == ";":
            self.take()
            self.take()
            return N("placeholder", ln)
        if x == "try":
            self.bad("try statement")
        return self.simple()

    def assembly(self, ln):
        self.take("{")
        out = []
        while not self.opt("}"):
            n = self.ident()
            if self.opt("."):
                n += "." + self.ident()
            self.take(":=")
            if self.kind != "id" or self.la() == "(":
                self.bad("assembly")
            out.append((n, self.take()))
        return N("assembly", ln, sets=out)

    def simple(self):
        """declaration or expression statement"""
        ln = self.line
        d = self.try_decl()
        if d is None:
            e = self.expr()
            d = N("expr", ln, e=e)
        self.take(";")
        return d

    def try_decl(self):
        ln, save = self.line, self.i
        if self.v == "(":
            try:
                self.take()
                vs = []
                while True:
                    if self.v in (",", ")"):
                        vs.append(None)
                    else:
                        ty = self.type()
                        loc = self.opt(*LOC)
                        vs.append((ty, loc, self.ident()))
                    if not self.opt(","):
                        break
                self.take(")")
                self.take("=")
                if not any(vs):
                    raise Unsupported("")
            except Unsupported:
                self.i = save
                return None
            return N("decl", ln, vs=vs, e=self.expr(), tup=True)
        if self.kind != "id" or self.v in ("new", "delete", "type", "payable", "this", "super"):
            return None
        try:
            ty = self.type()
            loc = self.opt(*LOC)
            n = self.ident()
            if self.v not in ("=", ";"):
                raise Unsupported("")
        except Unsupported:
            self.i = save
            return None
        e = self.expr() if self.opt("=") else None
        return N("decl", ln, vs=[(ty, loc, n)], e=e, tup=False)

    # ---- expressions
    def expr(self):
        ln = self.line
        a = self.ternary()
        if self.v in ASSIGN and self.kind == "op":
            op = self.take()
            return N("assign", ln, op=op[:-1], l=a, r=self.expr())
        return a

    def ternary(self):
        ln = self.line
        c = self.binary(0)
        if self.v == "?" :
            self.take()
            a = self.expr()
            self.take(":")
            return N("cond", ln, c=c, a=a, b=self.expr())
        return c

    def binary(self, l):
        if l == len(BIN):
            return self.power()
        a = self.binary(l + 1)
        while self.kind == "op" and self.v in BIN[l]:
            ln = self.line
            op = self.take()
            a = N("bin", ln, op=op, l=a, r=self.binary(l + 1))
        return a

    def power(self):
        a = self.unary()
        if self.v == "**":
            ln = self.line
            self.take()
            return N("bin", ln, op="**", l=a, r=self.power())
        return a

    def unary(self):
        ln = self.line
        if self.kind == "op" and self.v in ("!", "-", "~", "++", "--"):
            op = self.take()
            e = self.unary()
            return N("incdec", ln, op=op, e=e, pre=True) if op in ("++", "--") else N("un", ln, op=op, e=e)
        if self.v == "delete" and self.kind == "id":
            self.take()
            return N("delete", ln, e=self.unary())
        return self.postfix()

    def args(self):
        """(positional, named)"""
        self.take("(")
        if self.v == "{":
            self.take()
            named = []
            while not self.opt("}"):
                n = self.ident()
                self.take(":")
                named.append((n, self.expr()))
                self.opt(",")
            self.take(")")
            return [], named
        ps = []
        while not self.opt(")"):
            ps.append(self.expr())
            self.opt(",")
        return ps, None

    def postfix(self):
        e = self.primary()
        while self.kind == "op":
            ln, x = self.line, self.v
            if x == ".":
                self.take()
                e = N("mem", ln, e=e, n=self.ident())
            elif x == "[":
                self.take()
                if self.v == "]":           # type expression T[]
                    self.take()
                    e = N("tyarr", ln, e=e)
                else:
                    ix = self.expr()
                    self.take("]")
                    e = N("index", ln, e=e, i=ix)
            elif x == "(":
                ps, named = self.args()
                e = N("call", ln, f=e, a=ps, named=named, opts={})
            elif x == "{" and e.k in ("mem",) and self.la(2) == ":":
                self.take()
                opts = {}
                while not self.opt("}"):
                    n = self.ident()
                    self.take(":")
                    opts[n] = self.expr()
                    self.opt(",")
                ps, named = self.args()
                e = N("call", ln, f=e, a=ps, named=named, opts=opts)
            elif x in ("++", "--"):
                self.take()
                e = N("incdec", ln, op=x, e=e, pre=False)
            else:
                break
        return e

    def primary(self):
        ln, x, k = self.line, self.v, self.kind
        if k == "num":
            self.take()
            s = x.replace("_", "")
            if s.startswith("0x"):
                n, hexlen = int(s, 16), len(s) - 2
            else:
                hexlen = None
                m = re.match(r"^(\d+)(?:\.(\d+))?(?:[eE](\d+))?$", s)
                fr = m.group(2) or ""
                n = int(m.group(1) + fr) * 10 ** (int(m.group(3) or 0) - len(fr))
                if isinstance(n, float):
                    self.bad("number")
            if self.kind == "id" and self.v in ("seconds", "minutes", "hours", "days", "weeks", "wei", "gwei", "ether"):
                n *= {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800, "wei": 1, "gwei": 10 ** 9, "ether": 10 ** 18}[self.take()]
            return N("num", ln, v=n, hexlen=hexlen)
        if k == "str":
            self.take()
            return N("str", ln, v=x[1:-1])
        if k == "hexstr":
            self.take()
            return N("hexstr", ln, v=bytes.fromhex(x[4:-1].replace("_", "")))
        if x == "(":
            self.take()
            es = []
            while True:
                es.append(None if self.v in (",", ")") else self.expr())
                if not self.opt(","):
                    break
            self.take(")")
            return es[0] if len(es) == 1 and es[0] is not None else N("tuple", ln, es=es)
        if x == "new":
            self.take()
            return N("new", ln, ty=self.type())
        if x in ("true", "false"):
            self.take()
            return N("bool", ln, v=x == "true")
        if x == "mapping":
            self.bad()
        if k == "id":
            return N("id", ln, n=self.take())
        self.bad("expression")


class Unit:
    """all sources"""

    def __init__(self):
        self.contracts, self.fns, self.using, self.structs, self.enums, self.udvts, self.consts = {}, [], [], {}, {}, {}, {}
        self.files = []


def load(root):
    u = Unit()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("mocks",))
        for f in sorted(fs):
            if f.endswith(".sol"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as h:
                    Parser(h.read(), os.path.relpath(p, os.path.dirname(os.path.dirname(root))), u).unit()
                u.files.append(os.path.relpath(p, root))
    return u


if __name__ == "__main__":
    u = load("/repo/evm/src")
    print(len(u.contracts), sum(len(c.fns) for c in u.contracts.values()), len(u.fns), u.udvts, list(u.consts))
