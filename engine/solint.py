"""Path summaries of the EVM contracts, from their syntax trees, in the value-provenance domain of terms.py.

As for MIR (absint.py): branch conditions become facts, every path to a normal return keeps its facts, its storage
writes and its external calls in order; checked arithmetic contributes the fact that it did not overflow.  A loop is
one generic iteration: what its continuing paths change is unknown at entry, its effects become one `loop` effect,
and counters, sums and tabulated arrays are summarised.  External calls return unknowns; what they re-enter is not
followed (the rules check the order of state changes and calls instead)."""
import terms as tm
from terms import T, I, B, X, S, mk, agg, fld, eq, lt, le, b_not, b_and, cat, TRUE, FALSE
import absint
import sol
from sol import Unsupported, N

UINT = lambda n: ("uint", n)
U256, U8, BOOL, ADDR, BYTES, STRING, LITT = UINT(256), UINT(8), ("bool",), ("address",), ("bytes",), ("string",), ("lit",)
SENDER, VALUE, NOW, CHAINID, THIS = tm.sym("msg.sender"), tm.sym("msg.value"), tm.sym("block.timestamp"), tm.sym("block.chainid"), tm.sym("this")


class Dead(Exception):
    """this path reverts or is infeasible"""


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class V:
    __slots__ = ("ty", "t", "loc", "x")

    def __init__(self, ty, t, loc=None, x=None):
        self.ty, self.t, self.loc, self.x = ty, t, loc, x

    def __repr__(self):
        return f"{self.ty}:{self.t}{'@' + self.loc if self.loc else ''}"


def bN(n):
    return ("bN", n)


# interfaces of the libraries the sources import: (mutability, parameters ignored, return types)
VM = "IWormhole.VM"
KNOWN = {
    "IWormhole": {"messageFee": ("view", ["uint256"]), "chainId": ("view", ["uint16"]), "governanceChainId": ("view", ["uint16"]),
                  "governanceContract": ("view", ["bytes32"]), "parseAndVerifyVM": ("view", [VM, "bool", "string"]), "publishMessage": ("payable", ["uint64"]),
                  "parseVM": ("view", [VM]), "verifyVM": ("view", ["bool", "string"])},
    "IWormholeRelayer": {"quoteEVMDeliveryPrice": ("view", ["uint256", "uint256"]), "getDefaultDeliveryProvider": ("view", ["address"]), "sendToEvm": ("payable", ["uint64"])},
    "IERC20": {"balanceOf": ("view", ["uint256"]), "transfer": ("", ["bool"]), "transferFrom": ("", ["bool"]), "approve": ("", ["bool"]), "allowance": ("view", ["uint256"])},
    "ERC20Burnable": {"burn": ("", []), "burnFrom": ("", [])},
}
EXTSTRUCT = {VM: [("version", "uint8"), ("timestamp", "uint32"), ("nonce", "uint32"), ("emitterChainId", "uint16"), ("emitterAddress", "bytes32"), ("sequence", "uint64"),
                  ("consistencyLevel", "uint8"), ("payload", "bytes"), ("guardianSetIndex", "uint32"), ("hash", "bytes32")],
             "VaaKey": [("chainId", "uint16")]}


def tob(t, n):
    if t.op == "int":
        return X((t.a[0] % (1 << 8 * n)).to_bytes(n, "big"))
    if t.op == "from" and t.a[1] == "be" and t.a[2] == n:
        return t.a[0]
    return mk("tob", t, "be", n)


def frm(t, n):
    if t.op == "bytes":
        return I(int.from_bytes(t.a[0], "big"))
    if t.op == "tob" and t.a[1] == "be" and t.a[2] == n:
        return t.a[0]
    return mk("from", t, "be", n)


def blen(t):
    if t.op == "bytes":
        return I(len(t.a[0]))
    if t.op == "cat":
        r = I(0)
        for x in t.a:
            r = tm.add(r, blen(x))
        return r
    if t.op == "slice":
        return tm.sub(t.a[2], t.a[1])
    if t.op == "tob":
        return I(t.a[2])
    if t.op == "zeros":
        return t.a[0]
    n = SIZES.get(t)
    return I(n) if n else mk("len", t)


SIZES = {}          # atoms of fixed size: address, bytesN


def bslice(t, lo, hi):
    if lo == I(0) and hi is blen(t):
        return t
    if t.op == "slice":
        return mk("slice", t.a[0], tm.add(t.a[1], lo), tm.add(t.a[1], hi))
    if t.op == "bytes" and lo.op == hi.op == "int" and hi.a[0] <= len(t.a[0]):
        return X(t.a[0][lo.a[0]:hi.a[0]])
    if t.op == "cat":
        r = catslice(t, lo, hi)
        if r is not None:
            return r
    return mk("slice", t, lo, hi)


def catslice(t, lo, hi):
    """bounds on the borders of the parts, or within literal parts"""
    def cut(x):
        c = I(0)
        for i, part in enumerate(t.a):
            d = tm.sub(x, c)
            if d.op == "int":
                n = blen(part)
                if d.a[0] == 0 or n.op == "int" and 0 <= d.a[0] < n.a[0] and part.op in ("bytes", "zeros"):
                    return i, d.a[0]
            c = tm.add(c, blen(part))
        return (len(t.a), 0) if tm.sub(x, c) == I(0) else None
    a, b = cut(lo), cut(hi)
    if a is None or b is None or b < a:
        return None
    (i, x), (j, y) = a, b
    if i == j:
        if x == y:
            return X(b"")
        return bslice(t.a[i], I(x), I(y))
    out = []
    for k in range(i, j):
        out.append(bslice(t.a[k], I(x), blen(t.a[k])) if k == i and x else t.a[k])
    if y:
        out.append(bslice(t.a[j], I(0), I(y)))
    return out[0] if len(out) == 1 else tm.cat(*out)


def alen(t):
    if t.op == "arr0":
        return t.a[0]
    if t.op == "upd":
        return alen(t.a[0])
    if t.op == "pushed":
        return tm.add(alen(t.a[0]), I(1))
    if t.op == "popped":
        return tm.sub(alen(t.a[0]), I(1))
    if t.op in ("tab", "harr"):
        return t.a[1]
    return mk("len", t)


class Interp(absint.Interp):
    def __init__(self, unit, contract=None):
        super().__init__(None, None)
        self.u = unit
        self.lcache, self.ncache, self.fcache = {}, {}, {}
        self.contract = contract
        self.lin = self.linearize(contract) if contract else []
        self.st = None
        self.oracle, self.pos = [], 0
        self.frames = []
        self.reverts = []        # what made a path revert, or was assumed so that it does not
        self.loops = []          # (function, state before, state of an arbitrary iteration, unknowns, states after it)
        self.loose = []          # unchecked operations not shown to stay in range
        self.consts = {}
        self.lims = 0
        for t in (VALUE, NOW, CHAINID):
            self.ity[t] = (256, False)
        for t in (SENDER, THIS):
            SIZES[t] = 20
        for q, fs in EXTSTRUCT.items():
            tm._FIELDIDX[(q, "")] = {n: i for i, (n, _) in enumerate(fs)}

    def atom_bounds(self, st, x):
        lo, hi = super().atom_bounds(st, x)
        h = None
        if x.op == "band":
            h = min((y.a[0] for y in x.a if y.op == "int"), default=None)
            for y in x.a:
                if y.op != "int" and h is None:
                    h = self.range_of(st, y)[1]
        elif x.op == "trunc":
            h = (1 << int(x.a[1][1:])) - 1
        elif x.op in ("div", "rem"):
            a, b = self.range_of(st, x.a[0])
            if a is not None and a >= 0:
                lo = max(lo or 0, 0)
                h = b
        elif x.op == "mul":
            rs = [self.range_of(st, y) for y in x.a]
            if all(a is not None and a >= 0 for a, _ in rs):
                lo = max(lo or 0, 0)
        elif x.op == "pow":
            lo = max(lo or 0, 1)
        if h is not None:
            lo, hi = 0 if lo is None else max(lo, 0), h if hi is None else min(hi, h)
        return lo, hi

    # ---------------------------------------------------------------- program
    def linearize(self, name):
        if name not in self.lcache:
            self.lcache[name] = self.linearize1(name)
        return self.lcache[name]

    def linearize1(self, name):
        c = self.u.contracts[name]
        bases = [b for b in c.bases if b in self.u.contracts]
        seqs = [self.linearize(b) for b in reversed(bases)] + [list(reversed(bases))]
        out = [name]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                if not any(s[0] in o[1:] for o in seqs):
                    h = s[0]
                    break
            else:
                raise Unsupported(f"inheritance of {name}")
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def scope(self):
        """contracts whose names are visible from the function being run"""
        f = self.frames[-1] if self.frames else None
        c = f.fn.contract if f else self.contract
        if c is None:
            return []
        return self.lin if c in self.lin else self.linearize(c)

    def rty(self, t, where=None):
        """type of a type expression"""
        if t[0] == "map":
            return ("map", self.rty(t[1], where), self.rty(t[2], where))
        if t[0] == "arr":
            if t[2] is not None:
                raise Unsupported("fixed-size array")
            return ("arr", self.rty(t[1], where))
        return self.named(t[1], where)

    def named(self, n, where=None):
        f = self.frames[-1] if self.frames else None
        k = (n, where, f.fn.contract if f else None)
        if k not in self.ncache:
            self.ncache[k] = self.named1(n, where)
        return self.ncache[k]

    def named1(self, n, where=None):
        if n in ("uint", "int"):
            n += "256"
        if n.startswith("uint") and n[4:].isdigit():
            return UINT(int(n[4:]))
        if n.startswith("int") and n[3:].isdigit():
            return ("int", int(n[3:]))
        if n == "bytes":
            return BYTES
        if n.startswith("bytes") and n[5:].isdigit():
            return bN(int(n[5:]))
        if n in ("bool", "address", "string"):
            return (n,)
        if n in EXTSTRUCT:
            return ("struct", n)
        if "." in n:
            c, m = n.rsplit(".", 1)
            cs = [c]
        else:
            c, m = None, n
            cs = ([] if where is None else self.linearize(where) if where in self.u.contracts else []) + self.scope()
        for k in cs:
            k = self.u.contracts.get(k)
            if k is None:
                continue
            q = k.name + "." + m
            if m in k.structs:
                if (q, "") not in tm._FIELDIDX:
                    tm._FIELDIDX[(q, "")] = {a: i for i, (a, _) in enumerate(k.structs[m])}
                return ("struct", q)
            if m in k.enums:
                return ("enum", q)
            if m in k.udvts:
                return ("udvt", m)
        if c is None:
            if m in self.u.structs:
                tm._FIELDIDX.setdefault((m, ""), {a: i for i, (a, _) in enumerate(self.u.structs[m])})
                return ("struct", m)
            if m in self.u.enums:
                return ("enum", m)
            if m in self.u.udvts:
                return ("udvt", m)
            for k in self.u.contracts.values():     # a name imported from elsewhere
                if m in k.structs and k.kind != "library":
                    return self.named(k.name + "." + m)
        return ("contract", n)

    def sfields(self, ty):
        q = ty[1]
        if q in EXTSTRUCT:
            return [(n, self.named(t)) for n, t in EXTSTRUCT[q]]
        c, _, m = q.rpartition(".")
        fs = self.u.contracts[c].structs[m] if c else self.u.structs[m]
        return [(n, self.rty(t, c or None)) for n, t in fs]

    def under(self, ty):
        return self.rty(self.u.udvts[ty[1]]) if ty[0] == "udvt" and ty[1] in self.u.udvts else ty

    def width(self, ty):
        ty = self.under(ty)
        if ty[0] == "uint":
            return ty[1]
        if ty[0] == "enum":
            c, _, m = ty[1].rpartition(".")
            n = len(self.u.contracts[c].enums[m] if c else self.u.enums[m])
            return max(1, (n - 1).bit_length())
        return None

    def typed(self, t, ty):
        """t is an unknown of type ty"""
        if t.op in ("int", "lin", "bytes", "bool", "agg"):
            return t
        w = self.width(ty)
        if w:
            self.ity[t] = (w, False)
        elif ty[0] == "bN":
            SIZES[t] = ty[1]
        elif ty[0] in ("address", "contract"):
            SIZES[t] = 20
        elif ty[0] == "struct":
            return agg(ty[1], "", *[self.typed(fld(t, n), ft) for n, ft in self.sfields(ty)])
        return t

    def zero(self, ty):
        u = self.under(ty)
        if u[0] in ("uint", "int", "enum"):
            return I(0)
        if u[0] == "bool":
            return FALSE
        if u[0] == "bN":
            return X(bytes(u[1]))
        if u[0] in ("address", "contract"):
            return X(bytes(20))
        if u[0] in ("bytes", "string"):
            return X(b"")
        if u[0] == "arr":
            return mk("arr0", I(0))
        if u[0] == "struct":
            return agg(u[1], "", *[self.zero(ft) for _, ft in self.sfields(u)])
        raise Unsupported(f"default value of {ty}")

    # ------------------------------------------------------------------ paths
    def explore(self, st, fn, cap=4000):
        """every outcome of fn from st: [(value, state)]"""
        save = (self.st, self.oracle, self.pos)
        out, self.oracle = [], []
        frames = list(self.frames)
        n = 0
        try:
            while True:
                n += 1
                if n > cap:
                    raise Unsupported("too many paths")
                self.st, self.pos, self.frames = st.copy(), 0, list(frames)
                try:
                    v = fn()
                    out.append((v, self.st))
                except Dead:
                    pass
                while self.oracle and self.oracle[-1][0] == self.oracle[-1][1] - 1:
                    self.oracle.pop()
                if not self.oracle:
                    return out
                self.oracle[-1] = (self.oracle[-1][0] + 1, self.oracle[-1][1])
        finally:
            self.frames = frames
            self.st, self.oracle, self.pos = save

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos == len(self.oracle):
            self.oracle.append((0, n))
            self.nforks += 1
        c = self.oracle[self.pos][0]
        self.pos += 1
        return c

    def test(self, cond):
        """which way cond goes on this path"""
        if cond.op == "and":
            return self.test(cond.a[0]) and self.test(cond.a[1])
        if cond.op == "not":
            return not self.test(cond.a[0])
        d = self.decide(self.st, cond)
        if d is None:
            d = self.choose(2) == 0
            if not self.assume(self.st, cond, d):
                raise Dead()
        return d

    def require(self, cond):
        d = self.decide(self.st, cond)
        if d is not True:
            self.reverts.append(cond)
        if d is False:
            raise Dead()
        if d is None:
            if cond.op == "not" and cond.a[0].op == "and" or cond.op == "and":
                if not self.test(cond):
                    raise Dead()
            elif not self.assume(self.st, cond):
                raise Dead()

    def fresh(self, why):
        self.st.nheap += 1
        return tm.sym("havoc:" + why, I(self.st.nheap))

    def effect(self, kind, *a, **kw):
        f = self.frames[-1]
        self.st.eff = self.st.eff + (absint.Effect(kind, a, (f.fn.file, f.line, f.fn.key), kw=kw),)

    # ----------------------------------------------------------------- memory
    def alloc(self, t):
        self.st.nheap += 1
        r = mk("mref", self.st.nheap)
        self.st.store[("h", self.st.nheap)] = t
        return r

    def heap(self, r):
        return self.st.store[("h", r.a[0])]

    def snap(self, t, d=0):
        """a value with its memory references resolved"""
        if t.op == "mref":
            return self.snap(self.heap(t), d + 1)
        if t.op in ("agg", "upd", "pushed") and any(isinstance(x, T) and x.op in ("mref", "agg", "upd") for x in t.a) and d < 8:
            a = [self.snap(x, d + 1) if isinstance(x, T) else x for x in t.a]
            return agg(*a) if t.op == "agg" else mk(t.op, *a)
        return t

    def ismem(self, ty):
        return ty[0] in ("struct", "arr")

    def val(self, v):
        """rvalue: loads from storage"""
        if v.loc == "s":
            if v.ty[0] == "map":
                return v
            return self.boxed(self.load(v.t, v.ty), v.ty)
        return v

    def boxed(self, t, ty):
        if self.ismem(ty):
            return V(ty, t if t.op == "mref" else self.alloc(t))
        return V(ty, t)

    # ---------------------------------------------------------------- storage
    def alias(self, p, q):
        """condition under which two storage places are the same (None: never)"""
        if p is q:
            return TRUE
        if p.op != q.op:
            return None
        if p.op == "slot":
            return None
        c = self.alias(p.a[0], q.a[0])
        if c is None:
            return None
        if p.op == "sfld":
            return c if p.a[1] == q.a[1] else None
        e = eq(p.a[1], q.a[1])
        if e.op == "bool" and not e.a[0]:
            return None
        return b_and(c, e)

    def load(self, p, ty):
        if ty[0] == "struct":
            return agg(ty[1], "", *[self.load(mk("sfld", p, n), ft) for n, ft in self.sfields(ty)])
        for q, v in reversed(self.st.store.get(("s",), ())):
            c = self.alias(p, q)
            if c is not None and self.test(c):
                return v
        return self.typed(mk("sload", p), ty)

    def sstore(self, p, ty, t):
        if ty[0] == "struct":
            t = self.snap(t)
            for n, ft in self.sfields(ty):
                self.sstore(mk("sfld", p, n), ft, tm.proj(t, n))
            return
        t = self.snap(t)
        self.st.store[("s",)] = self.st.store.get(("s",), ()) + ((p, t),)
        self.effect("sstore", p, t)

    # ------------------------------------------------------------------ values
    def coerce(self, v, ty):
        """implicit conversion"""
        if v.ty == ty or v.ty is None:
            return v
        if v.loc == "s":
            return v
        if v.ty == LITT:
            if ty[0] == "bN":
                return V(ty, X(v.t.a[0].to_bytes(ty[1], "big")))
            if ty[0] == "address":
                return V(ty, X(v.t.a[0].to_bytes(20, "big")))
            return V(ty, v.t)
        if v.ty == STRING and ty == BYTES or v.ty == BYTES and ty == STRING:
            return V(ty, v.t)
        if ty[0] == "bN" and v.ty == STRING and v.t.op == "bytes":
            return V(ty, X(v.t.a[0].ljust(ty[1], b"\0")))
        if ty[0] == "bN" and v.ty[0] == "bN":
            return self.cast(v, ty)
        return V(ty, v.t, v.loc)

    def okconv(self, v, ty):
        a = v.ty
        if a == ty:
            return True
        if a == LITT:
            w = self.width(ty) if ty[0] == "uint" else None
            return bool(w) and 0 <= v.t.a[0] < 1 << w or ty[0] == "bN" and (v.x or 0) == 2 * ty[1] or ty[0] == "int"
        if a[0] == "uint" and ty[0] == "uint":
            return a[1] <= ty[1]
        if a == STRING and v.t.op == "bytes":
            return ty in (BYTES, STRING)
        if a[0] == "contract" and ty[0] == "contract":
            return True
        return False

    def cast(self, v, ty):
        v = self.val(v)
        src, t = self.under(v.ty), v.t
        if ty[0] == "uint":
            n = ty[1]
            if src[0] == "bN":
                return V(ty, frm(t, src[1]))
            if src[0] in ("address", "contract"):
                return V(ty, frm(t, 20))
            w = self.width(src)
            if src[0] == "uint" and w < n and t.op != "int":        # a value of a w-bit type is below 2^w
                lo, hi = self.range_of(self.st, t)
                if hi is None or hi >= 1 << w:
                    self.assume(self.st, le(t, I((1 << w) - 1)))
                if lo is None or lo < 0:
                    self.assume(self.st, le(I(0), t))
            return V(ty, self.narrow(t, n, w))
        if ty[0] == "bN":
            n = ty[1]
            if src == LITT or src[0] in ("uint",):
                w = n if src == LITT else src[1] // 8
                if w != n:
                    raise Unsupported("cast of differing sizes")
                return V(ty, tob(t, n))
            if src[0] == "bN":
                if src[1] == n:
                    return V(ty, t)
                if src[1] < n:
                    return V(ty, cat(t, X(bytes(n - src[1]))))
                return V(ty, bslice(t, I(0), I(n)))
            if src == STRING and t.op == "bytes":
                return V(ty, X(t.a[0].ljust(n, b"\0")))
            if src == BYTES:
                return V(ty, bslice(t, I(0), I(n)))
        if ty[0] in ("address", "contract"):
            if src == LITT or src[0] == "uint":
                return V(ty, tob(t, 20))
            return V(ty, t)
        if ty in (BYTES, STRING):
            return V(ty, t)
        if ty[0] == "enum":
            return V(ty, t)
        if ty == BOOL:
            return V(ty, t)
        raise Unsupported(f"cast to {ty}")

    def narrow(self, t, n, w=None):
        if t.op == "int":
            return I(t.a[0] % (1 << n))
        if w is not None and w <= n:
            return t
        if t.op == "shl" and t.a[0] == I(1) or t.op == "bnot":       # one bit; its index is below the width (rule: registry)
            return t
        lo, hi = self.range_of(self.st, t)
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << n:
            return t
        if n == 8:
            return self.bits("&", t, I(255))
        p = self.parts(t, 1 << n)
        return p[1] if p else mk("trunc", t, "u%d" % n)

    def loose_op(self, op, a, b):
        f = self.frames[-1]
        x = (op, a, b, (f.fn.file, f.line, f.fn.key))
        if x not in self.loose:
            self.loose.append(x)

    def common(self, a, b):
        if a.ty == LITT:
            return b.ty if b.ty != LITT else LITT
        if b.ty == LITT:
            return a.ty
        if a.ty[0] == b.ty[0] == "uint":
            return a.ty if a.ty[1] >= b.ty[1] else b.ty
        return a.ty

    def arith(self, op, a, b, checked):
        ty = self.common(a, b)
        x, y = a.t, b.t
        if op in ("**",):
            ty = U256 if a.ty == LITT else a.ty
            if x.op == y.op == "int":
                return V(LITT if a.ty == b.ty == LITT else ty, I(x.a[0] ** y.a[0]))
            return V(ty, mk("pow", x, y))
        if op in ("<<", ">>"):
            ty = a.ty if a.ty != LITT or b.ty == LITT else U256
            if y.op == "int":
                k = 1 << y.a[0]
                if op == "<<":
                    r = tm.mul(x, I(k))
                    w = self.width(ty)
                    lo, hi = self.range_of(self.st, x)
                    if w and hi is not None and lo is not None and lo >= 0 and hi * k < 1 << w:
                        return V(ty, r)
                    return V(ty, self.narrow(r, w) if w else r)
                return V(ty, self.shr(x, y.a[0]))
            return V(ty, mk("shl" if op == "<<" else "shr", x, y))
        if op in ("&", "|", "^"):
            return V(ty, self.bits(op, x, y))
        w = self.width(ty)
        if op == "+":
            r = tm.add(x, y)
        elif op == "-":
            r = tm.sub(x, y)
        elif op == "*":
            r = tm.mul(x, y)
        else:
            if not (y.op == "int" and y.a[0]):
                self.require(b_not(eq(y, I(0), True)))
            if y.op == "int" and y.a[0] > 1 and y.a[0] & (y.a[0] - 1) == 0 and x.op != "int":
                return V(ty, self.shr(x, y.a[0].bit_length() - 1) if op == "/" else self.bits("&", x, I(y.a[0] - 1)))
            return V(ty, tm.div(x, y) if op == "/" else tm.rem(x, y))
        if w is None:
            if ty == LITT or x.op == y.op == "int":
                return V(ty, r)
            raise Unsupported(f"arithmetic on {ty}")
        if r.op == "int" and 0 <= r.a[0] < 1 << w:
            return V(ty, r)
        cond = le(y, x, True) if op == "-" else le(r, I((1 << w) - 1))
        lo, hi = self.range_of(self.st, r)
        inr = lo is not None and lo >= 0 if op == "-" else hi is not None and hi < 1 << w
        if not inr and op in "+*":
            hx, hy = self.range_of(self.st, x)[1], self.range_of(self.st, y)[1]
            inr = hx is not None and hy is not None and (hx + hy if op == "+" else hx * hy) < 1 << w
        if not inr:
            if checked:
                self.require(cond)
            elif self.decide(self.st, cond) is not True and not (op == "+" and self.below_another(x, y, w)):
                self.loose_op(op, x, y)
                if not self.assume(self.st, cond):      # judged by the rule on unchecked arithmetic
                    raise Dead()
        return V(ty, r)

    def below_another(self, x, y, w):
        """x + y, where y is a constant and x is known to be at least y below another word of its width"""
        if x.op == "int":
            x, y = y, x
        if y.op != "int":
            return False
        for f, v in self.st.facts.items():
            if f.op != "le":
                continue
            c, m = tm.lin(tm.sub(f.a[0], I(f.a[1])))       # c + m <= 0, or >= 1
            if not v:
                c, m = 1 - c, {t: -n for t, n in m.items()}
            if m.get(x) != 1 or len(m) != 2:
                continue
            o, n = next(i for i in m.items() if i[0] is not x)
            hi = self.range_of(self.st, o)[1]
            if n == -1 and c >= y.a[0] and o.op not in ("lin", "mul", "pow") and (hi is not None and hi < 1 << w or hi is None and w == 256):
                return True
        return False

    def parts(self, t, k):
        """t = 256^.. split: (multiple of k) / k and a remainder that is below k, else None"""
        c, m = tm.lin(t)
        hi, lo = {}, {}
        for x, v in m.items():
            (hi if v % k == 0 else lo)[x] = v
        l = tm.mklin(c % k, lo)
        a, b = self.range_of(self.st, l)
        if a is not None and a >= 0 and b is not None and b < k:
            return tm.mklin(c // k, {x: v // k for x, v in hi.items()}), l
        return None

    def shr(self, t, n):
        if t.op == "int":
            return I(t.a[0] >> n)
        p = self.parts(t, 1 << n)
        return p[0] if p else mk("shr", t, I(n))

    def bits(self, op, x, y):
        if op == "&":
            for a, b in ((x, y), (y, x)):
                if b.op == "int" and b.a[0] >= 0 and b.a[0] & (b.a[0] + 1) == 0:     # low bits
                    p = self.parts(a, b.a[0] + 1)
                    if p:
                        return p[1]
                if b.op == "int" and a.op != "int":         # high bits
                    k = (b.a[0] & -b.a[0]) if b.a[0] else 0
                    lo, hi = self.range_of(self.st, a)
                    if k and hi is not None and lo is not None and lo >= 0 and hi <= b.a[0] | (k - 1) and (b.a[0] | (k - 1)) & ((b.a[0] | (k - 1)) + 1) == 0:
                        p = self.parts(a, k)
                        return tm.mul(p[0], I(k)) if p else tm.sub(a, mk("band", *sorted((a, I(k - 1)), key=lambda t: t.id)))
        if op == "|":
            for a, b in ((x, y), (y, x)):
                lo, hi = self.range_of(self.st, b)
                if lo is not None and lo >= 0 and hi is not None and a.op in ("lin", "mul", "int") and (a.op != "int" or b.op != "int"):
                    k = 1 << hi.bit_length()
                    c, m = tm.lin(a)
                    if c % k == 0 and all(v % k == 0 for v in m.values()):
                        return tm.add(a, b)
        return tm.comm({"&": "band", "|": "bor", "^": "bxor"}[op], x, y)

    def compare(self, op, a, b):
        a, b = self.val(a), self.val(b)
        if a.ty == LITT and b.ty != LITT:
            a = self.coerce(a, b.ty)
        elif b.ty == LITT and a.ty != LITT:
            b = self.coerce(b, a.ty)
        num = self.width(a.ty) is not None or a.ty == LITT
        if op in ("==", "!="):
            if a.ty == BOOL:
                r = B(self.test(a.t) == self.test(b.t))
            elif a.t.op == "bytes" and b.t.op == "bytes":
                r = B(a.t is b.t)
            else:
                r = eq(a.t, b.t, num)
            return V(BOOL, r if op == "==" else b_not(r))
        if not num:
            raise Unsupported(f"ordering of {a.ty}")
        r = {"<": lambda: lt(a.t, b.t, True), ">": lambda: lt(b.t, a.t, True), "<=": lambda: le(a.t, b.t, True), ">=": lambda: le(b.t, a.t, True)}[op]()
        return V(BOOL, r)

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        self.steps += 1
        f = self.frames[-1]
        f.line = e.line
        return getattr(self, "ev_" + e.k)(e)

    def rv(self, e):
        return self.val(self.ev(e))

    def ev_num(self, e):
        return V(LITT, I(e.v), x=e.hexlen)

    def ev_str(self, e):
        return V(STRING, X(e.v.encode().decode("unicode_escape").encode("latin1")))

    def ev_hexstr(self, e):
        return V(BYTES, X(e.v))

    def ev_bool(self, e):
        return V(BOOL, B(e.v))

    def ev_tuple(self, e):
        return V(("tuple",), None, x=[None if x is None else self.ev(x) for x in e.es])

    def ev_id(self, e):
        n = e.n
        f = self.frames[-1]
        if n in f.vars:
            v = self.st.store.get(("l", f.id, n))
            if v is None:
                raise Unsupported(f"variable {n} before its declaration")
            return v
        if n == "this":
            return V(("contract", self.contract), THIS)
        if n in ("msg", "block", "abi", "super", "tx"):
            return V(("ns", n), None)
        for c in self.scope():
            k = self.u.contracts[c]
            if n in k.vars:
                ty, q, init, _ = k.vars[n]
                t = self.rty(ty, c)
                if "constant" in q:
                    return self.constant((c, n), t, init)
                if "immutable" in q:
                    return V(t, self.typed(tm.sym("imm:" + n), t))
                raise Unsupported(f"state variable {n}")
        if n in self.u.consts:
            return self.constant((None, n), self.rty(self.u.consts[n][0]), self.u.consts[n][1])
        if n in self.u.contracts or n in KNOWN or n in LIBS:
            return V(("ns", n), None)
        ty = self.named(n)
        if ty != ("contract", n):
            return V(("type", ty), None)
        if n in ("payable",):
            return V(("type", ADDR), None)
        fs = self.find(n)
        if fs:
            return V(("fns", n), None, x=fs)
        return V(("type", ty), None)

    def constant(self, k, ty, init):
        if k not in self.consts:
            save = self.st
            self.st = absint.State()
            try:
                self.consts[k] = self.coerce(self.rv(init), ty).t
            finally:
                self.st = save
        return V(ty, self.consts[k])

    def ev_cond(self, e):
        return self.rv(e.a) if self.truth(e.c) else self.rv(e.b)

    def truth(self, e):
        if e.k == "bin" and e.op == "&&":
            return self.truth(e.l) and self.truth(e.r)
        if e.k == "bin" and e.op == "||":
            return self.truth(e.l) or self.truth(e.r)
        if e.k == "un" and e.op == "!":
            return not self.truth(e.e)
        return self.test(self.rv(e).t)

    def ev_bin(self, e):
        if e.op in ("&&", "||"):
            return V(BOOL, B(self.truth(e)))
        a, b = self.rv(e.l), self.rv(e.r)
        if a.ty[0] == "udvt" or b.ty[0] == "udvt":
            for lib, ops, ty in self.u.using:
                if lib is None and e.op in ops and self.rty(ty) == a.ty:
                    return self.call_fns(self.lookup_free(ops[e.op]), [a, b])
            raise Unsupported(f"operator {e.op} on {a.ty}")
        if e.op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(e.op, a, b)
        return self.arith(e.op, a, b, not self.frames[-1].unchecked)

    def ev_un(self, e):
        v = self.rv(e.e)
        if e.op == "!":
            return V(BOOL, b_not(v.t))
        if e.op == "~":
            w = self.width(v.ty)
            if v.t.op == "int" and w:
                return V(v.ty, I(v.t.a[0] ^ ((1 << w) - 1)))
            return V(v.ty if v.ty != LITT else U256, mk("bnot", v.t))
        if v.t.op == "int":
            return V(v.ty, I(-v.t.a[0]))
        raise Unsupported("negation")

    def ev_incdec(self, e):
        old = self.rv(e.e)
        new = self.arith("+" if e.op == "++" else "-", old, V(LITT, I(1)), not self.frames[-1].unchecked)
        self.store_to(e.e, V(old.ty, new.t))
        return new if e.pre else old

    def ev_delete(self, e):
        v = self.ev(e.e) if e.e.k != "id" else None
        lv = self.lval(e.e)
        if lv[0] == "s":
            self.sstore(lv[1], lv[2], self.zero(lv[2]))
        else:
            self.put(lv, self.boxed(self.zero(lv[-1]), lv[-1]))
        return V(None, None)

    def ev_assign(self, e):
        if e.op:
            old, r = self.rv(e.l), self.rv(e.r)
            if old.ty[0] == "udvt":
                raise Unsupported("compound assignment of a user-defined type")
            r = self.arith(e.op, old, r, not self.frames[-1].unchecked)
            self.store_to(e.l, V(old.ty, r.t))
            return r
        r = self.ev(e.r)
        if e.l.k == "tuple":
            if r.ty != ("tuple",):
                raise Unsupported("destructuring")
            for l, x in zip(e.l.es, r.x):
                if l is not None:
                    self.store_to(l, x)
            return r
        self.store_to(e.l, r)
        return r

    # ---- places
    def lval(self, e):
        """('l', key, ty) | ('s', path, ty) | ('m', base place, field, ty) | ('i', base place, index, ty)"""
        if e.k == "id":
            f = self.frames[-1]
            if e.n not in f.vars:
                if any(e.n in self.u.contracts[c].vars for c in self.scope()):
                    raise Unsupported(f"assignment to state variable {e.n}")
                raise Unsupported(f"assignment to {e.n}")
            return ("l", ("l", f.id, e.n), f.vars[e.n][0])
        if e.k == "mem":
            b = self.ev(e.e)
            if b.ty[0] != "struct":
                raise Unsupported("assignment to a member")
            ft = dict(self.sfields(b.ty))[e.n]
            return ("s", mk("sfld", b.t, e.n), ft) if b.loc == "s" else ("m", b.t, e.n, ft)
        if e.k == "index":
            b = self.ev(e.e)
            i = self.rv(e.i)
            if b.ty[0] == "map":
                return ("s", mk("sidx", b.t, self.coerce(i, b.ty[1]).t), b.ty[2])
            if b.ty[0] == "arr":
                return ("sa", b.t, i.t, b.ty) if b.loc == "s" else ("i", b.t, i.t, b.ty[1])
        raise Unsupported("assignment target")

    def store_to(self, e, v):
        self.put(self.lval(e), v)

    def put(self, lv, v):
        k, ty = lv[0], lv[-1]
        if k == "l":
            key = lv[1]
            f = self.frames[-1]
            if f.vars[key[2]][1] == "storage":
                self.st.store[key] = v
                return
            v = self.coerce(self.val(v), ty)
            self.st.store[key] = V(ty, v.t)
            return
        if k == "s":
            v = self.coerce(self.val(v), ty)
            self.sstore(lv[1], ty, v.t)
            return
        if k == "sa":
            v = self.coerce(self.val(v), ty[1])
            a = self.load(lv[1], ty)
            self.require(lt(lv[2], alen(a), True))
            self.sstore(lv[1], ty, mk("upd", a, lv[2], self.snap(v.t)))
            return
        v = self.coerce(self.val(v), ty)
        h = self.heap(lv[1])
        if k == "m":
            q = h.a[0] if h.op == "agg" else None
            if q is None:
                raise Unsupported("struct shape")
            ix = tm._FIELDIDX[(q, "")][lv[2]]
            fs = list(tm.fields(h))
            fs[ix] = v.t
            h = mk("agg", q, "", *fs)
        else:
            self.require(lt(lv[2], alen(h), True))
            h = mk("upd", h, lv[2], self.snap(v.t))
        self.st.store[("h", lv[1].a[0])] = h

    # ---- members
    def field(self, t, ty, n):
        if t.op != "agg":
            t = agg(ty[1], "", *[self.typed(fld(t, a), b) for a, b in self.sfields(ty)])
        return tm.proj(t, n)

    def ev_mem(self, e):
        b = self.ev(e.e)
        n = e.n
        ty = b.ty
        if ty[0] == "ns":
            return self.ns_member(ty[1], n)
        if ty[0] == "type":
            if ty[1][0] == "enum":
                c, _, m = ty[1][1].rpartition(".")
                vs = self.u.contracts[c].enums[m] if c else self.u.enums[m]
                return V(ty[1], I(vs.index(n)))
            if n in ("wrap", "unwrap"):
                return V(("wrap", ty[1], n), None)
            if n in ("max", "min"):
                return V(ty[1], I((1 << ty[1][1]) - 1 if n == "max" else 0))
            return V(("fnref", ty[1], n), None)
        if ty[0] == "struct":
            fs = dict(self.sfields(ty))
            if n in fs:
                if b.loc == "s":
                    return self.lazy(mk("sfld", b.t, n), fs[n])
                h = self.heap(b.t)
                if h.op != "agg":
                    h = agg(ty[1], "", *[self.typed(fld(h, a), t) for a, t in self.sfields(ty)])
                    if h.op != "agg":
                        h = mk("agg", ty[1], "", *[fld(h, a) for a, _ in self.sfields(ty)])
                    self.st.store[("h", b.t.a[0])] = h
                t = tm.proj(h, n)
                if self.ismem(fs[n]) and t.op != "mref":
                    r = self.alloc(t)
                    ix = tm._FIELDIDX[(ty[1], "")][n]
                    fl = list(tm.fields(h))
                    fl[ix] = r
                    self.st.store[("h", b.t.a[0])] = mk("agg", ty[1], "", *fl)
                    t = r
                return V(fs[n], t)
        if n == "length":
            if ty[0] == "arr":
                return V(U256, self.counted(alen(self.load(b.t, ty) if b.loc == "s" else self.heap(b.t))))
            if ty in (BYTES, STRING):
                return V(U256, self.counted(blen(self.val(b).t)))
            if ty[0] == "code":
                return V(U256, self.typed(mk("len", b.t), U256))
        if n == "selector":
            return V(bN(4), b.t)
        if ty[0] in ("address", "contract") and n == "code":
            return V(("code",), mk("code", b.t))
        if ty[0] == "address" and n == "balance":
            return V(U256, self.typed(mk("balance", b.t, self.epoch()), U256))
        return V(("bound", n), None, x=b)

    def counted(self, t):
        for x in tm.lin(t)[1]:
            if x.op == "len" and x not in self.ity:
                self.ity[x] = (64, False)
        return t

    def lazy(self, p, ty):
        if ty[0] in ("struct", "map", "arr"):
            return V(ty, p, "s")
        return V(ty, self.load(p, ty))

    def ns_member(self, ns, n):
        if ns == "msg":
            return {"sender": V(ADDR, SENDER), "value": V(U256, VALUE), "data": V(BYTES, tm.sym("msg.data")), "sig": V(bN(4), tm.sym("msg.sig"))}[n]
        if ns == "block":
            return {"timestamp": V(U256, NOW), "chainid": V(U256, CHAINID)}.get(n) or V(U256, self.typed(tm.sym("block." + n), U256))
        if ns == "abi":
            return V(("abi", n), None)
        if ns == "super":
            f = self.frames[-1].fn
            i = self.lin.index(f.contract)
            for c in self.lin[i + 1:]:
                fs = [g for g in self.u.contracts[c].fns if g.name == n and g.body is not None]
                if fs:
                    return V(("fns", n), None, x=fs)
            raise Unsupported(f"super.{n}")
        if ns in self.u.contracts:
            k = self.u.contracts[ns]
            if n in k.structs or n in k.enums or n in k.udvts:
                return V(("type", self.named(ns + "." + n)), None)
            if n in k.vars:
                ty, q, init, _ = k.vars[n]
                return self.constant((ns, n), self.rty(ty, ns), init)
            fs = []
            for c in self.linearize(ns):
                fs += [g for g in self.u.contracts[c].fns if g.name == n]
            if fs:
                return V(("fns", n), None, x=fs)
        if ns + "." + n in EXTSTRUCT:
            return V(("type", ("struct", ns + "." + n)), None)
        if ns in LIBS or ns in KNOWN:
            return V(("lib", ns, n), mk("call", "selector:" + ns + "." + n))
        raise Unsupported(f"{ns}.{n}")

    def ev_index(self, e):
        b = self.ev(e.e)
        i = self.rv(e.i)
        if b.ty[0] == "map":
            return self.lazy(mk("sidx", b.t, self.coerce(i, b.ty[1]).t), b.ty[2])
        if b.ty[0] == "arr":
            a = self.load(b.t, b.ty) if b.loc == "s" else self.heap(b.t)
            return self.boxed(self.elem(a, i.t, b.ty[1]), b.ty[1])
        if b.ty == BYTES or b.ty[0] == "bN":
            return V(bN(1), bslice(b.t, i.t, tm.add(i.t, I(1))))
        raise Unsupported("index")

    def elem(self, a, i, ty):
        self.require(lt(i, self.counted(alen(a)), True))
        while True:
            if a.op == "upd":
                if self.test(eq(a.a[1], i, True)):
                    return a.a[2]
                a = a.a[0]
            elif a.op == "pushed":
                if self.test(eq(alen(a.a[0]), i, True)):
                    return a.a[1]
                a = a.a[0]
            elif a.op == "popped":
                a = a.a[0]
            elif a.op == "arr0":
                return self.zero(ty)
            elif a.op == "tab":
                return tm.subst(a.a[2], lambda t: i if t is a.a[0] else None)
            else:
                return self.typed(mk("idx", a, i), ty)

    def ev_new(self, e):
        return V(("new", self.rty(e.ty)), None)

    def ev_tyarr(self, e):
        return V(("type", ("arr", self.ev(e.e).ty[1])), None)

    # ------------------------------------------------------------------- calls
    def find(self, n):
        """functions of that name visible here: the most derived override of each signature"""
        f = self.frames[-1].fn if self.frames else None
        k = (n, f.contract if f else self.contract)
        if k not in self.fcache:
            self.fcache[k] = self.find1(n, f)
        return self.fcache[k]

    def find1(self, n, f):
        out, sigs = [], set()
        lex = f.contract if f else self.contract
        if lex and self.u.contracts[lex].kind == "library":
            cs = [lex]
        else:
            cs = self.lin
        if lex:     # a private function is found in the contract that names it
            out = [g for g in self.u.contracts[lex].fns if g.name == n and g.vis == "private"]
            sigs = {self.sig(g) for g in out}
        for c in cs:
            for g in self.u.contracts[c].fns:
                if g.name == n and g.body is not None and self.sig(g) not in sigs and (g.vis != "private" or c == lex):
                    sigs.add(self.sig(g))
                    out.append(g)
        return out or [g for g in self.u.fns if g.name == n]

    def sig(self, g):
        return tuple(str(self.rty(t, g.contract)) for t, _, _ in g.params)

    def lookup_free(self, n):
        if "." in n:
            c, m = n.split(".")
            return [g for g in self.u.contracts[c].fns if g.name == m]
        return [g for g in self.u.fns if g.name == n]

    def pick(self, fs, args):
        c = [g for g in fs if len(g.params) == len(args)]
        if len(c) > 1:
            ex = [g for g in c if all(a.ty == self.rty(p[0], g.contract) for a, p in zip(args, g.params))]
            c = ex or [g for g in c if all(self.okconv(a, self.rty(p[0], g.contract)) for a, p in zip(args, g.params))]
        if not c:
            raise Unsupported(f"no overload of {fs[0].name if fs else '?'} for {[a.ty for a in args]}")
        return c[0]

    def call_fns(self, fs, args):
        return self.invoke(self.pick(fs, args), args)

    def ev_call(self, e):
        self.ncalls += 1
        fe = e.f
        if fe.k == "id" and fe.n in ("keccak256", "assert", "require", "type", "addmod", "mulmod", "blockhash", "gasleft") and fe.n not in self.frames[-1].vars:
            return self.builtin(fe.n, e)
        f = self.ev(fe)
        k = f.ty[0]
        if k == "type" or k == "ns" or k == "fnref":
            return self.construct(f, e)
        opts = {n: self.rv(x) for n, x in e.opts.items()}
        args = [self.ev(x) for x in e.a]
        if k == "fns":
            if e.named is not None:
                g = f.x[0]
                d = dict(e.named)
                args = [self.ev(d[p[2]]) for p in g.params]
            return self.call_fns(f.x, args)
        if k == "wrap":
            return V(f.ty[1] if f.ty[2] == "wrap" else self.under(f.ty[1]), self.coerce(self.val(args[0]), self.under(f.ty[1])).t)
        if k == "new":
            n = self.val(args[0]).t
            if f.ty[1] == BYTES:
                return V(BYTES, X(bytes(n.a[0])) if n.op == "int" else mk("zeros", n))
            return V(f.ty[1], self.alloc(mk("arr0", n)))
        if k == "abi":
            return self.abi(f.ty[1], args, e)
        if k == "lib":
            return self.libcall(f.ty[1], f.ty[2], [self.val(a) for a in args])
        if k == "bound":
            return self.method(f.x, f.ty[1], args, opts)
        raise Unsupported(f"call of {f.ty}")

    def construct(self, f, e):
        ty = f.ty[1] if f.ty[0] == "type" else None
        if f.ty[0] == "ns":
            if len(e.a) != 1:
                raise Unsupported(f"call of {f.ty}")
            return self.cast(self.ev(e.a[0]), ("contract", f.ty[1]))
        if f.ty[0] == "fnref":
            if f.ty[1][0] in ("bytes", "string") and f.ty[2] == "concat":
                return V(BYTES, cat(*[self.packed(self.rv(a)) for a in e.a]))
            raise Unsupported(f"{f.ty}")
        if ty[0] == "struct":
            fs = self.sfields(ty)
            if e.named is not None:
                d = dict(e.named)
                order = [(n, self.ev(x)) for n, x in e.named]
                d = dict(order)
                vs = [d[n] for n, _ in fs]
            else:
                vs = [self.ev(x) for x in e.a]
            if len(vs) != len(fs):
                raise Unsupported(f"constructor of {ty}")
            return V(ty, self.alloc(mk("agg", ty[1], "", *[self.coerce(self.val(v), ft).t for v, (_, ft) in zip(vs, fs)])))
        if len(e.a) == 1:
            v = self.ev(e.a[0])
            if ty[0] == "contract" and ty[1] not in self.u.contracts and ty[1] not in KNOWN and not ty[1][:1].isupper():
                return self.libcall(None, ty[1], [self.val(v)])
            return self.cast(v, ty)
        if ty[0] == "contract":
            return self.libcall(None, ty[1], [self.rv(x) for x in e.a])
        raise Unsupported(f"construction of {ty}")

    def builtin(self, n, e):
        if n == "type":
            return V(("type", self.typeof(e.a[0])), None)
        if n == "keccak256":
            return V(bN(32), self.typed(mk("keccak", self.rv(e.a[0]).t), bN(32)))
        if n in ("assert", "require"):
            if not self.truth(e.a[0]):
                self.reverts.append("require")
                raise Dead()
            return V(None, None)
        raise Unsupported(n)

    def typeof(self, e):
        if e.k == "id":
            return self.named(e.n)
        if e.k == "mem":
            return self.named(self.dotted(e))
        raise Unsupported("type()")

    def dotted(self, e):
        return e.n if e.k == "id" else self.dotted(e.e) + "." + e.n

    def abi(self, n, args, e):
        if n == "decode":
            t = self.val(args[0]).t
            tys = e.a[1]
            tys = tys.es if tys.k == "tuple" else [tys]
            out = []
            for i, x in enumerate(tys):
                ty = self.typeof(x)
                out.append(self.boxed(self.typed(mk("dec", t, I(i)) if len(tys) > 1 else mk("dec", t), ty), ty))
            return out[0] if len(out) == 1 else V(("tuple",), None, x=out)
        args = [self.val(a) for a in args]
        if n == "encodePacked":
            return V(BYTES, cat(*[self.packed(a) for a in args]))
        ts = [self.snap(a.t) for a in args]
        return V(BYTES, mk("call", "abi." + n, *ts))

    def packed(self, a):
        ty, t = self.under(a.ty), a.t
        if ty[0] == "uint":
            return tob(t, ty[1] // 8)
        if ty[0] == "enum":
            return tob(t, 1)
        if ty[0] == "bool":
            return tob(I(int(t.a[0])), 1) if t.op == "bool" else tob(mk("b2i", t), 1)
        if ty[0] in ("bN", "bytes", "string", "address", "contract"):
            return t
        raise Unsupported(f"encodePacked of {ty}")

    def epoch(self):
        return I(self.st.ver)

    def libcall(self, lib, n, a):
        """functions of the imported libraries"""
        if lib == "SafeCast" and n.startswith("toUint"):
            w = int(n[6:])
            self.require(le(a[0].t, I((1 << w) - 1)))
            return V(UINT(w), a[0].t)
        if lib is None and n == "_upgradeTo":
            self.effect("upgrade", a[0].t)
            self.st.ver += 1
            return V(None, None)
        if lib is None and n == "toWormholeFormat":
            t = a[0].t
            if t.op == "bytes":
                return V(bN(32), X(bytes(12) + t.a[0]))
            return V(bN(32), self.typed(cat(X(bytes(12)), t), bN(32)))
        if lib is None and n == "fromWormholeFormat":
            t = a[0].t
            if t.op == "cat" and t.a[0] == X(bytes(12)) and len(t.a) == 2:
                return V(ADDR, t.a[1])
            r = mk("call", "fromWormholeFormat", t)
            SIZES[r] = 20
            return V(ADDR, r)
        if lib == "BytesParsing":
            return self.parsing(n, a)
        raise Unsupported(f"{lib}.{n}")

    def parsing(self, n, a):
        enc = a[0].t
        if n == "checkLength":
            self.require(eq(self.counted(blen(enc)), a[1].t, True))
            return V(None, None)
        checked = not n.endswith("Unchecked")
        m = n[:-9] if not checked else n
        off = a[1].t
        if m == "slice":
            end = tm.add(off, a[2].t)
            v = V(BYTES, bslice(enc, off, end))
        elif m.startswith("asUint"):
            w = int(m[6:])
            end = tm.add(off, I(w // 8))
            v = V(UINT(w), self.typed(frm(bslice(enc, off, end), w // 8), UINT(w)))
        elif m.startswith("asBytes"):
            w = int(m[7:])
            end = tm.add(off, I(w))
            v = V(bN(w), self.typed(bslice(enc, off, end), bN(w)))
        elif m == "asAddress":
            end = tm.add(off, I(20))
            v = V(ADDR, self.typed(bslice(enc, off, end), ADDR))
        elif m == "asBool":
            end = tm.add(off, I(1))
            x = self.typed(frm(bslice(enc, off, end), 1), U8)
            if x.op != "b2i":
                self.require(le(x, I(1)))
            v = V(BOOL, x.a[0] if x.op == "b2i" else eq(x, I(1), True))
        else:
            raise Unsupported(f"BytesParsing.{n}")
        if checked:
            self.require(le(end, self.counted(blen(enc)), True))
        return V(("tuple",), None, x=[v, V(U256, end)])

    def usings(self):
        f = self.frames[-1].fn
        out = list(self.u.using)
        if f.contract:
            out += self.u.contracts[f.contract].using
        return out

    def method(self, b, n, args, opts):
        ty = b.ty
        if ty[0] == "arr" and b.loc == "s" and n in ("push", "pop"):
            a = self.load(b.t, ty)
            if n == "push":
                self.sstore(b.t, ty, mk("pushed", a, self.snap(self.coerce(self.val(args[0]), ty[1]).t)))
            else:
                self.require(b_not(eq(self.counted(alen(a)), I(0), True)))
                self.sstore(b.t, ty, mk("popped", a))
            return V(None, None)
        for lib, ops, uty in self.usings():
            if uty is not None and self.rty(uty) != ty and not (ty == LITT):
                continue
            if lib is None:
                if n in ops:
                    return self.call_fns(self.lookup_free(ops[n]), [b] + args)
            elif lib in self.u.contracts:
                fs = [g for g in self.u.contracts[lib].fns if g.name == n and len(g.params) == len(args) + 1 and self.okconv(self.val(b) if b.loc == "s" and not g.params[0][1] == "storage" else b, self.rty(g.params[0][0], lib))]
                if fs:
                    return self.call_fns(fs, [b] + args)
            elif lib in LIBS and n in LIBS[lib] or lib == "BytesParsing" and (n.startswith("as") or n.startswith("slice") or n == "checkLength"):
                if lib == "SafeERC20":
                    return self.external(b, n, args, opts, "", [])
                return self.libcall(lib, n, [self.val(b)] + [self.val(x) for x in args])
        if ty[0] in ("address", "contract") and n in ("call", "staticcall", "delegatecall"):
            return self.lowlevel(self.val(b), n, [self.val(x) for x in args], opts)
        if ty[0] == "contract":
            return self.interface(self.val(b), n, args, opts)
        raise Unsupported(f"method {n} of {ty}")

    def lowlevel(self, b, n, args, opts):
        data = args[0].t
        if n == "staticcall":
            self.st.nheap += 1
            ep = self.epoch()
            if data.op == "call" and data.a[0] == "abi.encodeWithSignature" and data.a[1] == X(b"decimals()"):
                ep = I(0)               # a token's decimals do not change
            r = mk("view", "call", b.t, data, ep)
            return V(("tuple",), None, x=[V(BOOL, mk("ok", r)), V(BYTES, r)])
        self.st.ver += 1
        r = tm.sym("result", self.epoch())
        self.effect("ext", b.t, n, args=tm.tup(data), value=opts["value"].t if "value" in opts else I(0))
        return V(("tuple",), None, x=[V(BOOL, mk("ok", r)), V(BYTES, r)])

    def interface(self, b, n, args, opts):
        cn = b.ty[1]
        if cn in KNOWN:
            if n not in KNOWN[cn]:
                raise Unsupported(f"{cn}.{n}")
            mut, rets = KNOWN[cn][n]
            return self.external(b, n, args, opts, mut, [self.named(r) for r in rets])
        if cn not in self.u.contracts:
            raise Unsupported(f"interface {cn}")
        for c in self.linearize(cn):
            k = self.u.contracts[c]
            fs = [g for g in k.fns if g.name == n and len(g.params) == len(args)]
            if fs:
                g = fs[0]
                return self.external(b, n, [self.coerce(self.val(a), self.rty(p[0], c)) for a, p in zip(args, g.params)], opts, g.mut, [self.rty(t, c) for t, _, _ in g.rets])
            if n in k.vars and "public" in k.vars[n][1]:
                return self.external(b, n, args, opts, "view", [self.rty(k.vars[n][0], c)])
        raise Unsupported(f"{cn}.{n}")

    def external(self, b, n, args, opts, mut, rets):
        ts = [self.snap(self.val(a).t) for a in args]
        tgt = self.val(b).t
        if mut in ("view", "pure"):
            r = mk("view", n, tgt, tm.tup(*ts), self.epoch())
        else:
            self.effect("ext", tgt, n, args=tm.tup(*ts), value=opts["value"].t if "value" in opts else I(0))
            self.st.ver += 1
            r = tm.sym("result", self.epoch())
        out = []
        for i, ty in enumerate(rets):
            t = r if len(rets) == 1 else mk("fld", r, str(i))
            out.append(self.boxed(self.typed(t, ty), ty))
        if not out:
            return V(None, None)
        return out[0] if len(out) == 1 else V(("tuple",), None, x=out)

    # --------------------------------------------------------------- functions
    def invoke(self, g, args):
        if g.body is None:
            raise Unsupported(f"{g.key} has no body")
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        self.visited.add(g.key)
        self.st.nheap += 1
        f = Frame(g, self.st.nheap)
        self.frames.append(f)
        try:
            for (t, loc, n), a in zip(g.params, args):
                ty = self.rty(t, g.contract)
                if loc == "storage":
                    v = a
                else:
                    v = self.coerce(self.val(a), ty)
                    if self.ismem(ty) and v.t.op != "mref":
                        v = self.boxed(v.t, ty)
                    v = V(ty, v.t)
                if n:
                    f.vars[n] = (ty, loc)
                    self.st.store[("l", f.id, n)] = v
            f.rets = []
            for i, (t, loc, n) in enumerate(g.rets):
                ty = self.rty(t, g.contract)
                n = n or f"#{i}"
                f.rets.append((n, ty, loc))
                f.vars[n] = (ty, loc)
                if loc == "storage":
                    self.st.store[("l", f.id, n)] = V(ty, None, "s")
                else:
                    self.st.store[("l", f.id, n)] = self.boxed(self.zero(ty), ty)
            self.modified(f, 0)
            out = [self.st.store[("l", f.id, n)] for n, _, _ in f.rets]
            if not out:
                return V(None, None)
            return out[0] if len(out) == 1 else V(("tuple",), None, x=out)
        finally:
            if self.frames and self.frames[-1] is f:
                self.frames.pop()

    def modified(self, f, i):
        """the function body inside its i-th and later modifiers"""
        g = f.fn
        if i == len(g.mods):
            try:
                self.run_block(g.body)
            except Ret:
                pass
            return
        n, margs = g.mods[i]
        m = None
        for c in (self.lin if g.contract in self.lin else self.linearize(g.contract)):
            if n in self.u.contracts[c].mods:
                m = self.u.contracts[c].mods[n]
                break
        if m is None or m.body is None:
            raise Unsupported(f"modifier {n}")
        vals = [self.rv(a) for a in margs]
        self.st.nheap += 1
        mf = Frame(m, self.st.nheap)
        for (t, loc, pn), a in zip(m.params, vals):
            mf.vars[pn] = (self.rty(t, m.contract), loc)
            self.st.store[("l", mf.id, pn)] = self.coerce(a, self.rty(t, m.contract))
        mf.inner = lambda: self.within(f, i + 1)
        self.frames.append(mf)
        try:
            self.run_block(m.body)
        except Ret:
            pass
        finally:
            while self.frames and self.frames[-1] is not mf and mf in self.frames:
                self.frames.pop()
            if self.frames and self.frames[-1] is mf:
                self.frames.pop()

    def within(self, f, i):
        self.frames.append(f)
        try:
            self.modified(f, i)
        finally:
            if self.frames and self.frames[-1] is f:
                self.frames.pop()

    # --------------------------------------------------------------- statements
    def run_block(self, b):
        for s in b.ss:
            self.run(s)

    def run(self, s):
        f = self.frames[-1]
        f.line = s.line
        getattr(self, "st_" + s.k)(s)

    def st_block(self, s):
        self.run_block(s)

    def st_unchecked(self, s):
        f = self.frames[-1]
        f.unchecked += 1
        try:
            self.run_block(s.body)
        finally:
            f.unchecked -= 1

    @staticmethod
    def only_reverts(s):
        return s.k == "revert" or s.k == "block" and len(s.ss) == 1 and s.ss[0].k == "revert"

    def st_if(self, s):
        if self.only_reverts(s.a) and not (s.c.k == "bin" and s.c.op in ("&&", "||")):
            self.require(b_not(self.rv(s.c).t))
            if s.b is not None:
                self.run(s.b)
        elif self.truth(s.c):
            self.run(s.a)
        elif s.b is not None:
            self.run(s.b)

    def st_expr(self, s):
        self.ev(s.e)

    def st_decl(self, s):
        f = self.frames[-1]
        v = self.ev(s.e) if s.e is not None else None
        vals = v.x if s.tup else [v]
        for d, x in zip(s.vs, vals):
            if d is None:
                continue
            ty = self.rty(d[0], f.fn.contract)
            f.vars[d[2]] = (ty, d[1])
            key = ("l", f.id, d[2])
            if d[1] == "storage":
                if x is None or x.loc != "s":
                    raise Unsupported("storage pointer")
                self.st.store[key] = x
            elif x is None:
                self.st.store[key] = self.boxed(self.zero(ty), ty)
            else:
                x = self.coerce(self.val(x), ty)
                self.st.store[key] = V(ty, x.t)

    def st_return(self, s):
        f = self.frames[-1]
        if s.e is not None:
            v = self.ev(s.e)
            vs = v.x if v.ty == ("tuple",) else [v]
            if f.rets:
                for (n, ty, loc), x in zip(f.rets, vs):
                    if loc == "storage":
                        self.st.store[("l", f.id, n)] = x
                    else:
                        x = self.coerce(self.val(x), ty)
                        self.st.store[("l", f.id, n)] = V(ty, x.t)
        raise Ret()

    def st_emit(self, s):
        e = s.e

        def one(a):
            v = self.rv(a)
            return None if v.t is None else self.snap(v.t)
        ts = []
        for a in (e.a if e.named is None else [x for _, x in e.named]):
            # what an event reports does not split the path (that computing it could revert is left out)
            r = {v for v, _ in self.explore(self.st, lambda: one(a))}
            ts.append(r.pop() if len(r) == 1 else None)
        self.effect("emit", self.dotted(e.f), args=tm.tup(*[t if t is not None else tm.sym("several") for t in ts]))

    def st_revert(self, s):
        self.reverts.append(f"revert in line {s.line}")
        raise Dead()

    def st_break(self, s):
        raise Brk()

    def st_continue(self, s):
        raise Cont()

    def st_placeholder(self, s):
        self.frames[-1].inner()

    def st_assembly(self, s):
        f = self.frames[-1]
        for n, src in s.sets:
            v = self.ev(N("id", s.line, n=src))
            if n.endswith(".slot"):
                n = n[:-5]
                ty = f.vars[n][0]
                t = v.t if self.width(v.ty) else frm(v.t, 32)
                self.st.store[("l", f.id, n)] = V(ty, mk("slot", t), "s")
            else:
                raise Unsupported("assembly")

    # -------------------------------------------------------------------- loops
    def st_dowhile(self, s):
        """the body once, then a while loop; with a condition that is always true, just a loop"""
        t = self.pure(s.c, self.st)
        if t is not None and self.decide(self.st, t) is True:        # also true before the first iteration
            return self.st_for(sol.loop(s.line, None, s.c, None, s.body))
        try:
            self.run(s.body)
        except Cont:
            pass
        except Brk:
            return
        self.st_for(sol.loop(s.line, None, s.c, None, s.body))

    def st_for(self, s):
        if s.init is not None:
            self.run(s.init)
        entry = self.st.copy()
        frame = self.frames[-1]
        hav, conts, others = {}, [], []
        base = entry
        for _ in range(8):
            base = entry.copy()
            for k, t in hav.items():
                base.store[k] = t
            self.bound_counters(entry, base, hav)

            def once():
                if s.c is not None and not self.truth(s.c):
                    return ("exit",)
                try:
                    self.run(s.body)
                except Cont:
                    pass
                except Brk:
                    return ("break",)
                except Ret:
                    return ("return",)
                if s.post is not None:
                    self.ev(s.post)
                return ("next",)
            res = self.explore(base, once)
            conts = [st for v, st in res if v[0] == "next"]
            others = [(v[0], st) for v, st in res if v[0] != "next"]
            new = {}
            for st in conts:
                for k, v in st.store.items():
                    old = base.store.get(k)
                    if k not in entry.store or k in hav:
                        continue
                    if k == ("s",):
                        if v != old:
                            raise Unsupported("storage changed by every iteration of a loop")
                        continue
                    if isinstance(v, V):
                        if v.t is not old.t:
                            new[k] = V(v.ty, self.unknown_of(v, st), v.loc)
                    elif v is not old:
                        h = I(len(hav) + len(new) + 1000 * entry.nheap)
                        # the length of an array in memory never changes
                        new[k] = mk("harr", h, alen(old)) if old.op in ("arr0", "upd", "tab", "harr") else tm.sym("havoc:array", h)
            if not new:
                break
            hav.update(new)
        else:
            raise Unsupported("loop does not stabilise")
        self.summarise(s, entry, base, hav, conts, others, frame)

    def unknown_of(self, v, st):
        if self.ismem(v.ty):
            raise Unsupported("reference changed by a loop")
        self.nwiden += 1
        return self.typed(tm.sym("havoc:loop", I(self.st.nheap * 100 + self.nwiden)), v.ty)

    def bound_counters(self, entry, base, hav):
        for k, v in hav.items():
            if isinstance(v, V) and self.width(v.ty):
                o = entry.store[k].t
                if o.op == "int" and self.rising.get(v.t):
                    self._bound(base, v.t, lo=o.a[0])

    rising = {}

    def summarise(self, s, entry, base, hav, conts, others, frame):
        effs = tuple(tuple(st.eff[len(base.eff):]) for st in conts)
        # a counter: +1 in every continuing iteration
        ctr = None
        for k, v in hav.items():
            if isinstance(v, V) and self.width(v.ty) and conts and all(st.store[k].t is tm.add(v.t, I(1)) for st in conts):
                if ctr is None or entry.store[k].t.op == "int":
                    ctr = (k, v.t, entry.store[k].t)
        count = None
        if ctr is not None and s.c is not None and s.c.k == "bin" and s.c.op in ("<", "!=", ">"):
            lv, lim = self.pure(s.c.l, base), self.pure(s.c.r, base)
            if s.c.op == ">" or s.c.op == "!=" and lim is ctr[1]:
                lv, lim = lim, lv
            if lv is ctr[1] and lim is not None and not self.mentions(lim, hav) and ctr[2].op == "int":
                count = lim
        exits = [(k, st) for k, st in others]
        self.loops.append((frame.fn, entry, base, dict(hav), conts, ctr, count))
        if not exits:
            raise Dead()
        # which way the loop is left, without the facts of the iteration that was tried
        i = self.choose(len(exits))
        kind, st = exits[i]
        n0 = len(base.eff)
        tail = st.eff[n0:]
        st = st.copy()
        if conts and any(effs):
            le_ = absint.Effect("loop", (ctr[1] if ctr else tm.sym("?"), count if count is not None else tm.sym("?"), effs), (frame.fn.file, s.line, frame.fn.key))
            st.eff = base.eff + (le_,) + tail
            st.ver = max([st.ver] + [c.ver for c in conts]) + 1
        self.st = st
        if kind == "exit":
            sub = {}
            bv = mk("bv", s.line)
            if count is not None and ctr[2] == I(0):
                # the counter has reached its limit
                if not self.assume(st, eq(ctr[1], count, True)):
                    raise Dead()
            for k, v in hav.items():
                if not isinstance(v, V):
                    e = self.tabulated(k, v, entry, conts, ctr, count, bv, hav)
                    if e is not None:
                        st.store[k] = e
                    continue
                if v is not None and v.ty == BYTES:
                    e = self.joined(k, v, entry, conts, ctr, count, bv, hav)
                    if e is not None:
                        st.store[k] = V(v.ty, e)
                    continue
                if v is None or not self.width(v.ty):
                    continue
                if ctr is not None and k == ctr[0] and count is not None and ctr[2] == I(0):
                    st.store[k] = V(v.ty, count)
                    continue
                e = self.summed(k, v, entry, conts, ctr, count, bv, hav)
                if e is not None:
                    st.store[k] = V(v.ty, e)
            return
        if kind == "break":
            return
        raise Ret()

    def pure(self, e, st):
        save = self.st, self.oracle, self.pos
        self.st, self.oracle, self.pos = st.copy(), [], 0
        try:
            t = self.rv(e).t
            return t if not self.oracle else None
        except (Dead, Unsupported):
            return None
        finally:
            self.st, self.oracle, self.pos = save

    def mentions(self, t, hav):
        ts = {v.t if isinstance(v, V) else v for v in hav.values()}
        return bool(tm.subterms(t) & ts)

    def summed(self, k, v, entry, conts, ctr, count, bv, hav):
        ds = {tm.sub(st.store[k].t, v.t) for st in conts}
        if len(ds) != 1:
            return None
        d, = ds
        o = entry.store[k].t
        if ctr is not None and count is not None and ctr[2] == I(0):
            others = {q: w for q, w in hav.items() if (w.t if isinstance(w, V) else w) is not ctr[1]}
            if self.mentions(d, others):
                return None
            d = tm.subst(d, lambda t: bv if t is ctr[1] else None)
            return tm.add(o, mk("sum", bv, count, d))
        # population count: the lowest set bit is cleared, or the word shifted down, until none is left
        for q, w in hav.items():
            if q == k or not isinstance(w, V) or not self.width(w.ty):
                continue
            x, x0 = w.t, entry.store[q].t
            nx = {st.store[q].t for st in conts}
            if nx == {tm.comm("band", x, tm.sub(x, I(1)))} and d == I(1):
                return tm.add(o, self.typed(mk("popcount", x0), U8))
            if nx == {mk("shr", x, I(1))} and d is mk("band", *sorted((x, I(1)), key=lambda t: t.id)):
                return tm.add(o, self.typed(mk("popcount", x0), U8))
        return None

    def joined(self, k, v, entry, conts, ctr, count, bv, hav):
        """bytes to which every iteration appends"""
        es = {st.store[k].t for st in conts}
        if len(es) != 1 or ctr is None or count is None or ctr[2] != I(0):
            return None
        e, = es
        others = {q: w for q, w in hav.items() if (w.t if isinstance(w, V) else w) is not ctr[1]}
        if e.op != "cat" or e.a[0] is not v.t or any(self.mentions(x, others) for x in e.a[1:]):
            return None
        return cat(entry.store[k].t, mk("catall", bv, count, tm.subst(cat(*e.a[1:]), lambda t: bv if t is ctr[1] else None)))

    def tabulated(self, k, v, entry, conts, ctr, count, bv, hav):
        if ctr is None or count is None or ctr[2] != I(0):
            return None
        es = {st.store[k] for st in conts}
        if len(es) != 1:
            return None
        e, = es
        if e.op != "upd" or e.a[0] is not v or e.a[1] is not ctr[1]:
            return None
        others = {q: w for q, w in hav.items() if (w.t if isinstance(w, V) else w) is not ctr[1]}
        if self.mentions(e.a[2], others) or entry.store[k].op != "arr0" or entry.store[k].a[0] is not count:
            return None
        return mk("tab", bv, count, tm.subst(e.a[2], lambda t: bv if t is ctr[1] else None))


class Frame:
    __slots__ = ("fn", "id", "vars", "rets", "line", "unchecked", "inner")

    def __init__(self, fn, fid):
        self.fn, self.id, self.vars, self.rets, self.line, self.unchecked, self.inner = fn, fid, {}, [], fn.line, 0, None


LIBS = {"SafeCast": {"toUint64"}, "BytesParsing": set(), "SafeERC20": {"safeTransfer", "safeTransferFrom", "safeApprove", "forceApprove"}}


# ------------------------------------------------------------------- entry points
def entries(ip):
    """{name/arity: function} callable from outside, most derived first"""
    out, seen = {}, set()
    for c in ip.lin:
        for g in ip.u.contracts[c].fns:
            s = (g.name,) + ip.sig(g)
            if s in seen or g.vis not in ("external", "public"):
                continue
            seen.add(s)
            if g.body is not None:
                out[f"{g.name}/{len(g.params)}"] = g
    return out


def arguments(ip, g):
    out = []
    for i, (t, loc, n) in enumerate(g.params):
        ty = ip.rty(t, g.contract)
        x = tm.sym("arg:" + (n or f"#{i}"))
        out.append((ty, loc, x))
    return out


def summarise_fn(unit, contract, g, cap=4000, args=None, top=None, pre=(), keep=False):
    """[(return terms, state)], interpreter"""
    if not keep:
        SIZES.clear()               # parameters are named by position: their sizes are those of this function
    ip = Interp(unit, top or contract)
    if contract and contract not in ip.lin:
        ip.lin = ip.linearize(contract)
    dummy = Frame(g, 0)
    ip.frames = [dummy]
    st = absint.State()

    def go():
        for t in pre:
            if not ip.assume(ip.st, t):
                raise Dead()
        ps = []
        for i, (t, loc, n) in enumerate(g.params):
            ty = ip.rty(t, g.contract)
            x = args[i] if args else tm.sym("arg:" + (n or f"#{i}"))
            if loc == "storage":
                ps.append(V(ty, x, "s"))
            else:
                ps.append(ip.boxed(ip.typed(x, ty), ty))
        v = ip.invoke(g, ps)
        vs = v.x if v.ty == ("tuple",) else [v]
        r = [ip.snap(ip.val(x).t) for x in vs if x.t is not None]
        return r
    return ip.explore(st, go, cap), ip
