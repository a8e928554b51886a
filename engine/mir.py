"""Loads one crate's MIR dump (written by /verif/driver) into Program objects."""
import json
import os
import re

import terms as tm
from terms import I, B, S, X, mk, agg

BOXY = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"}
# newtypes whose value is the value of their only (meaningful) field
TRANSPARENT = BOXY | {
    "solana_program::pubkey::Pubkey", "solana_program::keccak::Hash",
    "anchor_spl::token_interface::TokenAccount", "anchor_spl::token_interface::Mint",
    "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
    "core::mem::maybe_dangling::MaybeDangling", "bitmaps::bitmap::Bitmap",
    "core::num::wrapping::Wrapping", "core::cmp::Reverse", "core::num::nonzero::NonZero",
}


class Elem:
    """one projection step"""
    __slots__ = ("k", "i", "name", "adt", "variant", "ty", "base")

    def __init__(self, k, i=None, name=None, adt=None, variant=None, ty=None, base=None):
        self.k, self.i, self.name, self.adt, self.variant, self.ty, self.base = k, i, name, adt, variant, ty, base

    def key(self):
        return (self.k, self.i, self.variant)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.k}:{self.name if self.name is not None else self.i}"


class Fn:
    __slots__ = ("key", "defn", "argc", "spread", "sp", "locals", "names", "raw", "prog", "bbs", "loops", "nlocals", "targs")


class Program:
    def __init__(self, path):
        self.types, self.adts, self.fns = {}, {}, {}
        self.crate = None
        self.raw = {}
        done = False
        with open(path, encoding="utf-8") as f:
            for line in f:
                d = json.loads(line)
                if "T" in d:
                    self.types[d["T"]] = d
                elif "A" in d:
                    self.adts[d["A"]] = d
                elif "F" in d:
                    self.raw[d["F"]] = d
                elif "C" in d:
                    self.crate = d["C"]
                elif "end" in d:
                    done = True
        if not done:
            raise RuntimeError(f"truncated dump {path}")
        for p, d in self.adts.items():
            if d["kind"] == "enum":
                tm._ADTS[p] = [(v["n"], v["d"]) for v in d["v"]]
            for v in d["v"]:
                tm._FIELDIDX[(p, v["n"])] = {f[0]: i for i, f in enumerate(v["f"])}
        self.bydef = {}
        for k, d in self.raw.items():
            self.bydef.setdefault(d["def"], []).append(k)

    # ---- types
    def tk(self, ty):
        return self.types.get(ty, {"k": "other", "s": "?"})

    def ts(self, ty):
        d = self.tk(ty)
        if d["k"] == "int":
            return ("i" if d["s"] else "u") + str(d["n"])
        return str(d.get("s"))

    def tyname(self, ty):
        d = self.tk(ty)
        if d["k"] == "adt":
            return d["d"]
        return self.ts(ty)

    def int_ty(self, ty):
        """(bits, signed) or None"""
        d = self.tk(ty)
        if d["k"] == "int":
            return d["n"], bool(d["s"])
        if d["k"] == "bool":
            return 1, False
        if d["k"] == "char":
            return 32, False
        return None

    def unsigned(self, ty):
        r = self.int_ty(ty)
        return r is not None and not r[1]

    def derived_impl(self, key):
        """was this function written by a macro (a derive) rather than by hand?"""
        sp = self.raw[key]["sp"]
        return len(sp) > 2 and sp[2] == 1

    # ---- functions
    def fn(self, key):
        f = self.fns.get(key)
        if f is None and key in self.raw:
            f = self.fns[key] = self._compile(self.raw[key])
        return f

    def _compile(self, d):
        f = Fn()
        f.key, f.defn, f.argc, f.spread, f.sp = d["F"], d["def"], d["argc"], d["spread"], d["sp"]
        f.locals, f.names, f.raw, f.prog, f.targs = d["locals"], dict(map(tuple, d["names"])), d, self, d["targs"]
        f.nlocals = len(f.locals)
        f.bbs = []
        for stmts, term, line in d["bb"]:
            f.bbs.append(([(self._place(f, s[0]), self._rv(f, s[1]), s[2]) for s in stmts], self._term(f, term), line))
        f.loops = None
        return f

    def field_info(self, ty, variant):
        d = self.tk(ty)
        if d["k"] == "adt":
            a = self.adts.get(d["d"])
            if a:
                v = a["v"][variant or 0] if a["v"] else None
                return d["d"], v
            return d["d"], None
        return None, None

    def _place(self, f, p):
        local, projs = p
        ty = f.locals[local]
        out, variant = [], None
        for e in projs:
            if e == "*":
                out.append(Elem("*"))
                d = self.tk(ty)
                ty = d.get("t") if d["k"] in ("ref", "ptr") else (d.get("a") or [None])[0]
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "f":
                d = self.tk(ty)
                if d["k"] == "adt" and d["d"] in TRANSPARENT:
                    ty = e[2]
                    variant = None
                    continue
                adt, v = self.field_info(ty, variant)
                name = str(e[1])
                vn = None
                if v:
                    if e[1] < len(v["f"]):
                        name = v["f"][e[1]][0]
                    if self.adts[adt]["kind"] == "enum":
                        vn = v["n"]
                    elif self.adts[adt]["kind"] == "union":
                        vn = "union"
                out.append(Elem("f", e[1], name, adt, vn, e[2], ty))
                ty, variant = e[2], None
            elif e[0] == "i":
                out.append(Elem("i", e[1]))
                ty = self.tk(ty).get("t")
            elif e[0] == "c":
                out.append(Elem("c", (e[1], e[2], e[3])))
                ty = self.tk(ty).get("t")
            elif e[0] == "s":
                out.append(Elem("s", (e[1], e[2], e[3])))
            elif e[0] == "o":
                pass
            else:
                raise RuntimeError(f"projection {e}")
        return (local, out, ty)

    def _op(self, f, o):
        if o[0] in ("c", "m"):
            return ("p", self._place(f, o[1]))
        if o[0] == "k":
            ty, c = o[1]
            return ("k", self.const(c, ty), ty)
        return ("k", tm.sym("runtime_checks"), None)

    def opty(self, o):
        return o[1][2] if o[0] == "p" else o[2]

    def const(self, c, ty):
        if "b" in c:
            return B(c["b"])
        if "i" in c:
            return I(int(c["i"]))
        if "ch" in c:
            return I(ord(c["ch"]) if isinstance(c["ch"], str) else c["ch"])
        if "str" in c:
            return S(c["str"])
        if "x" in c:
            return X(bytes.fromhex(c["x"]))
        if "ref" in c:
            t = self.tk(ty).get("t")
            return self.const(c["ref"], t)
        if "arr" in c:
            et = self.tk(ty).get("t")
            return agg("array", self.ts(et) if self.tk(et)["k"] != "int" else self.intname(et),
                       *[self.const(x, et) for x in c["arr"]])
        if "tup" in c:
            ts = self.tk(ty).get("a") or []
            return tm.tup(*[self.const(x, ts[i] if i < len(ts) else None) for i, x in enumerate(c["tup"])])
        if "adt" in c:
            d = self.tk(c["adt"])
            name = d.get("d", d.get("s"))
            a = self.adts.get(name)
            v = a["v"][c["v"]] if a and a["v"] else None
            fs = []
            for i, x in enumerate(c["f"]):
                fs.append(self.const(x, v["f"][i][1] if v and i < len(v["f"]) else None))
            if name in TRANSPARENT and fs:
                return fs[0]
            return agg(name, v["n"] if v else "", *fs)
        if "z" in c:
            return self.zst(c["z"])
        if "u" in c:
            return tm.sym("const:" + str(c["u"]))
        return tm.sym("const?")

    def zst(self, ty):
        d = self.tk(ty)
        if d["k"] == "fn":
            return mk("fnitem", d.get("r") or d["d"], d["d"], tuple(self.ts(x) for x in d.get("a", ())), tuple(d.get("a", ())))
        if d["k"] == "closure":
            return agg("closure:" + d["d"], str(ty))
        if d["k"] == "tuple":
            return tm.UNIT
        if d["k"] == "adt":
            a = self.adts.get(d["d"])
            if a and a["v"]:
                v = a["v"][0]
                return agg(d["d"], v["n"], *[self.zst(x[1]) for x in v["f"]])
            return agg(d["d"], d["d"].rsplit("::", 1)[-1])
        if d["k"] == "array":
            return agg("array", "")
        return tm.sym("zst:" + self.ts(ty))

    def intname(self, ty):
        r = self.int_ty(ty)
        if r is None:
            return self.ts(ty)
        return ("i" if r[1] else "u") + str(r[0])

    def _rv(self, f, r):
        k = r[0]
        if k == "use":
            return ("use", self._op(f, r[1]))
        if k == "ref":
            return ("ref", r[1], self._place(f, r[2]))
        if k == "reb":
            return ("ref", 1, self._place(f, r[-1]))
        if k == "agg":
            ops = [self._op(f, o) for o in r[3]]
            t = r[1]
            if t in ("tuple", "array", "rawptr"):
                return ("agg", t, "", ops, None)
            d = self.tk(t)
            if d["k"] == "closure":
                return ("agg", "closure:" + d["d"], str(t), ops, None)
            name = d.get("d", d.get("s"))
            a = self.adts.get(name)
            vn = a["v"][r[2]]["n"] if a and a["v"] else str(r[2])
            if name in TRANSPARENT and ops:
                return ("use", ops[-1] if name.endswith("MaybeUninit") else ops[0])
            return ("agg", name, vn, ops, r[4] if len(r) > 4 else -1)
        if k in ("bin", "cbin"):
            a, b = self._op(f, r[2]), self._op(f, r[3])
            return (k, r[1], a, b, self.opty(a))
        if k == "cast":
            o = self._op(f, r[2])
            return ("cast", r[1], o, r[3], self.opty(o))
        if k == "discr":
            p = self._place(f, r[1])
            d = self.tk(p[2])
            return ("discr", p, d.get("d") if d["k"] == "adt" else None)
        if k == "len":
            return ("len", self._place(f, r[1]))
        if k == "rep":
            return ("rep", self._op(f, r[1]), r[2])
        if k == "un":
            o = self._op(f, r[2])
            return ("un", r[1], o, self.opty(o))
        return (k,) + tuple(r[1:])

    def _term(self, f, t):
        k = t[0]
        if k == "switch":
            o = self._op(f, t[1])
            return ("switch", o, t[2], t[3], self.opty(o))
        if k == "call":
            c = t[1]
            if "op" in c:
                callee = ("ind", self._op(f, c["op"]))
            else:
                callee = ("dir", c["d"], c["a"], c["r"])
            args = [self._op(f, o) for o in t[2]]
            return ("call", callee, args, self._place(f, t[3]), t[4])
        if k == "assert":
            return ("assert", self._op(f, t[1]), t[2], t[3], t[4])
        return tuple(t)

    def retty(self, f):
        return f.locals[0]

    def loops(self, f):
        """{header: set(blocks of the natural loop)}"""
        if f.loops is not None:
            return f.loops
        succ = [self.succs(b[1]) for b in f.bbs]
        n = len(succ)
        color, order, back = [0] * n, [], []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                order.append(u)
                stack.pop()
        pred = [[] for _ in range(n)]
        for u, ss in enumerate(succ):
            for v in ss:
                pred[v].append(u)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(pred[x])
        f.loops = loops
        return loops

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[3]]
        return []


def load(dump, crate):
    return Program(os.path.join(dump, crate + ".jsonl"))
