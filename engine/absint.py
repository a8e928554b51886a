"""Forward dataflow over MIR, interprocedural, in the value-provenance domain of
terms.py.  Branch conditions become facts on the edges they dominate, states are
kept apart per path (trace partitioning) and joined on error returns and loops
(loop-carried locations are widened to an unknown).  No solver, no execution: a
fact is either recorded verbatim, implied by an interval on the same linear form,
or unknown."""
import re

import terms as tm
from terms import (T, I, B, mk, agg, fld, TRUE, FALSE, UNIT, eq, lt, le, b_not, b_and, discr, isv)
from mir import Elem

MAXSTATES = 6000
INFRA = set()          # call names whose facts are not recorded (rent, lamports..)


class TooMany(Exception):
    pass


class State:
    __slots__ = ("store", "facts", "bounds", "eqc", "eff", "omap", "ver", "nheap")

    def __init__(self):
        self.store, self.facts, self.bounds, self.eqc = {}, {}, {}, {}
        self.eff, self.omap, self.ver, self.nheap = (), {}, 0, 0

    def copy(self):
        s = State.__new__(State)
        s.store, s.facts = self.store.copy(), self.facts.copy()
        s.bounds, s.eqc = self.bounds.copy(), self.eqc.copy()
        s.eff, s.omap, s.ver, s.nheap = self.eff, self.omap.copy(), self.ver, self.nheap
        return s


class Loop:
    """one loop on one path: iterations so far, widening stage, kind of tests met in this iteration"""
    __slots__ = ("c", "stage", "sy", "effs", "nsym", "snap", "hav", "nh")

    def __init__(self, s, nh, c=0, stage=0, nsym=0):
        self.nh = nh
        self.c, self.stage, self.sy, self.effs, self.nsym = c, stage, False, s.eff, nsym
        self.snap, self.hav = s.store.copy() if c == 0 else None, frozenset()

    def mark(self, sy):
        L = Loop.__new__(Loop)
        L.c, L.stage, L.effs, L.nsym, L.snap, L.hav, L.nh = self.c, self.stage, self.effs, self.nsym, self.snap, self.hav, self.nh
        L.sy = sy
        return L


def later(t, n):
    """an unknown introduced after the n-th"""
    if t.op == "sym":
        return str(t.a[0]).startswith("havoc:") and len(t.a) > 1 and t.a[1].op == "int" and t.a[1].a[0] > n
    return t.op in ("anyidx", "isnext") and isinstance(t.a[0], int) and t.a[0] > n


def covers(old, v, hav):
    if old is v or old in hav:
        return True
    if old.op == v.op and old.op in ("agg", "iter", "itermut", "iteradapt") and len(old.a) == len(v.a):
        return all(covers(x, y, hav) if isinstance(x, T) and isinstance(y, T) else x == y for x, y in zip(old.a, v.a))
    return False


class Effect:
    __slots__ = ("kind", "a", "loc", "loop", "nf", "kw")

    def __init__(self, kind, a, loc, loop=False, kw=None):
        self.kind, self.a, self.loc, self.loop, self.kw = kind, a, loc, loop, kw or {}

    def key(self):
        return (self.kind, self.a, self.loop, tuple(sorted(self.kw.items())))

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return f"{self.kind}({', '.join(map(str, self.a))}{''.join(f', {k}={v}' for k, v in self.kw.items())})" + (" [loop]" if self.loop else "")


_infra_cache = {}


def infra(t):
    r = _infra_cache.get(t)
    if r is None:
        r = any(x.op in ("ovf", "infra") for x in tm.subterms(t))
        _infra_cache[t] = r
    return r


class Interp:
    def __init__(self, prog, models):
        self.prog = prog
        self.models = models
        self.cache = {}
        self.nfid = 0
        self.nhavoc = 0
        self.nwiden = 0
        self.rewrite = None
        self.stack = []
        self.visited = set()
        self.unknown = {}
        self.steps = 0
        self.nforks = 0
        self.ncalls = 0
        self.trace_fns = set()
        self.lens = {}
        self.ity = {}

    # ---------------------------------------------------------------- facts
    def decide(self, st, t):
        if t.op == "bool":
            return t.a[0]
        if t.op == "not":
            r = self.decide(st, t.a[0])
            return None if r is None else not r
        r = st.facts.get(t)
        if r is not None:
            return r
        if t.op == "and":
            a, b = self.decide(st, t.a[0]), self.decide(st, t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.op == "isv":
            x, adt, v = t.a
            if x.op == "agg":
                return x.a[1] == v
            vs = [n for n, _ in tm._ADTS.get(adt, ())]
            for n in vs:
                if n != v and st.facts.get(mk("isv", x, adt, n)):
                    return False
            if vs and all(n == v or st.facts.get(mk("isv", x, adt, n)) is False for n in vs):
                return True
            c = st.eqc.get(x)
            if c is not None and c.op == "agg":
                return c.a[1] == v
            return None
        if t.op == "eq":
            a, b = t.a
            a2, b2 = st.eqc.get(a, a), st.eqc.get(b, b)
            if tm.ground(a2) and tm.ground(b2):
                return a2 is b2
            if a2 is not a or b2 is not b:
                r = eq(a2, b2)
                if r.op == "bool":
                    return r.a[0]
                if r in st.facts:
                    return st.facts[r]
            c, m = tm.lin(tm.sub(a, b)) if self._num(a, b) else (0, None)
            if m:
                lo, hi = self.range_of(st, tm.mklin(c, m))
                if lo is not None and hi is not None and lo == hi == 0:
                    return True
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    return False
            return None
        if t.op == "le":
            L, k = t.a
            lo, hi = self.range_of(st, L)
            if hi is not None and hi <= k:
                return True
            if lo is not None and lo > k:
                return False
            # an excluded end point
            if hi == k + 1 and hi is not None and st.facts.get(eq(L, I(hi), True)) is False:
                return True
            if lo == k and lo is not None and st.facts.get(eq(L, I(lo), True)) is False:
                return False
        return None

    @staticmethod
    def _num(a, b):
        return any(x.op in ("int", "lin") for x in (a, b))

    def atom_bounds(self, st, x):
        lo, hi = st.bounds.get(x, (None, None))
        if x.op == "len":
            lo = 0 if lo is None else max(lo, 0)
        if x.op == "rentmin":           # 128 bytes of account overhead are always charged
            lo = 2 if lo is None else max(lo, 2)
        if x.op == "from" and x not in self.ity:
            lo, hi = 0 if lo is None else max(lo, 0), (1 << 8 * x.a[2]) - 1 if hi is None else min(hi, (1 << 8 * x.a[2]) - 1)
        if x.op == "idx" and x.a[0].op == "tob":
            lo, hi = 0 if lo is None else max(lo, 0), 255 if hi is None else min(hi, 255)
        if x.op == "shr" and x.a[1].op == "int":
            l, h = self.range_of(st, x.a[0])
            if l is not None and l >= 0:
                lo = l >> x.a[1].a[0] if lo is None else max(lo, l >> x.a[1].a[0])
                if h is not None:
                    hi = h >> x.a[1].a[0] if hi is None else min(hi, h >> x.a[1].a[0])
        if x.op == "b2i":
            lo, hi = 0 if lo is None else max(lo, 0), 1 if hi is None else min(hi, 1)
        if x.op == "popcount":
            lo, hi = 0 if lo is None else max(lo, 0), 128 if hi is None else min(hi, 128)
        c = st.eqc.get(x)
        if c is not None and c.op == "int":
            return c.a[0], c.a[0]
        return lo, hi

    def interval(self, st, c, m):
        lo, hi = c, c
        for x, k in m.items():
            l, h = self.atom_bounds(st, x)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        if len(m) > 1 or any(v != 1 for v in m.values()):
            lead = min(m, key=lambda k: k.id)
            s = 1 if m[lead] > 0 else -1
            L = tm.mklin(0, {k: v * s for k, v in m.items()})
            l, h = st.bounds.get(L, (None, None))
            if s < 0:
                l, h = (None if h is None else -h), (None if l is None else -l)
            if l is not None and (lo is None or l + c > lo):
                lo = l + c
            if h is not None and (hi is None or h + c < hi):
                hi = h + c
        return lo, hi

    def _bound(self, st, L, lo=None, hi=None):
        a, b = st.bounds.get(L, (None, None))
        if lo is not None:
            a = lo if a is None else max(a, lo)
        if hi is not None:
            b = hi if b is None else min(b, hi)
        st.bounds[L] = (a, b)
        return not (a is not None and b is not None and a > b)

    def assume(self, st, t, val=True):
        """adds t==val to st; False when that contradicts what is known"""
        if t.op == "bool":
            return t.a[0] == val
        if t.op == "not":
            return self.assume(st, t.a[0], not val)
        if t.op == "and" and val:
            return self.assume(st, t.a[0]) and self.assume(st, t.a[1])
        d = self.decide(st, t)
        if d is not None:
            return d == val
        if t.op == "and":
            for x, y in (t.a, t.a[::-1]):
                if self.decide(st, x) is True:
                    return self.assume(st, y, False)
        if infra(t):
            return True
        st.facts[t] = val
        if t.op == "eq":
            a, b = t.a
            if val:
                for x, y in ((a, b), (b, a)):
                    if tm.ground(y) and not tm.ground(x):
                        st.eqc[x] = y
                        if x.op == "lin" and y.op == "int":
                            c, m = tm.lin(x)
                            self._bound(st, tm.mklin(0, m), y.a[0] - c, y.a[0] - c)
                if a.op == "agg" or b.op == "agg":
                    x, y = (a, b) if a.op == "agg" else (b, a)
                    ix = tm._FIELDIDX.get((x.a[0], x.a[1]))
                    if y.op != "agg" and x.a[0] in tm._ADTS:
                        if not self.assume(st, mk("isv", y, x.a[0], x.a[1])):
                            return False
                    if ix and x.a[0] not in tm._ADTS:
                        for n, i in ix.items():
                            if not self.assume(st, eq(tm.proj(x, n), tm.proj(y, n))):
                                return False
                if self._num(a, b):
                    c, m = tm.lin(tm.sub(a, b))
                    if len(m) > 1:
                        lead = min(m, key=lambda k: k.id)
                        s = 1 if m[lead] > 0 else -1
                        self._bound(st, tm.mklin(0, {k: v * s for k, v in m.items()}), -c * s, -c * s)
            else:
                # x != lo  tightens an interval end
                for x, y in ((a, b), (b, a)):
                    if y.op == "int":
                        lo, hi = self.atom_bounds(st, x)
                        if lo == y.a[0]:
                            self._bound(st, x, lo=lo + 1)
                        if hi == y.a[0]:
                            self._bound(st, x, hi=hi - 1)
        elif t.op == "le":
            L, k = t.a
            return self._bound(st, L, hi=k) if val else self._bound(st, L, lo=k + 1)
        elif t.op == "isv":
            x, adt, v = t.a
            if not val:
                rest = [n for n, _ in tm._ADTS.get(adt, ()) if st.facts.get(mk("isv", x, adt, n)) is not False]
                if len(rest) == 1:
                    st.facts[mk("isv", x, adt, rest[0])] = True
        return True

    # --------------------------------------------------------------- memory
    def havoc(self, why=""):
        self.nhavoc += 1
        return tm.sym("havoc:" + why, I(self.nhavoc))

    def alloc(self, st, v):
        st.nheap += 1
        c = ("h", st.nheap)
        st.store[c] = v
        return mk("ref", c, ())

    def get(self, v, e):
        if isinstance(e, Elem):
            if e.k == "f":
                if v.op == "agg":
                    if e.variant is not None and v.a[1] != e.variant and e.adt == v.a[0]:
                        return mk("bottom")
                    if 2 + e.i < len(v.a):
                        return v.a[2 + e.i]
                    return mk("fld", v, e.name)
                if v.op == "bottom":
                    return v
                if v.op == "zeroed":
                    return self.zero(e.ty)
                if v.op == "ix":
                    return self.typed(mk("ixarg", e.i, self.prog.ts(e.ty)), e.ty)
                if e.variant is not None and e.variant != "union":
                    return self.typed(mk("vfld", v, e.variant, e.name), e.ty)
                t = mk("fld", v, e.name)
                if self.rewrite is not None:
                    r = self.rewrite(t)
                    if r is not None:
                        return r
                return self.typed(t, e.ty)
            raise RuntimeError(e)
        if e[0] == "x":
            i = e[1]
            if v.op == "accs":
                return mk("acc", tm.add(v.a[0], i))
            if v.op == "slice" and v.a[0].op == "bytes_of":
                pass
            if i.op == "int":
                n = i.a[0]
                if v.op == "agg" and 0 <= n < len(v.a) - 2:
                    return v.a[2 + n]
                if v.op == "bytes" and 0 <= n < len(v.a[0]):
                    return I(v.a[0][n])
                if v.op == "rep":
                    return v.a[0]
                if v.op == "cat" and self.length(v).op == "int":
                    for x in v.a:
                        m = self.length(x).a[0]
                        if n < m:
                            return self.get(x, ("x", I(n)))
                        n -= m
            if v.op == "upd":
                if v.a[1] is i:
                    return v.a[2]
                if v.a[1].op == "int" and i.op == "int":
                    return self.get(v.a[0], e)
            if v.op == "agg" and len(v.a) > 4 and v.a[2] == I(1) and v.a[3].op == "int" and v.a[3].a[0] > 1 and i.op != "int" \
                    and all(x == I(v.a[3].a[0] ** n) for n, x in enumerate(v.a[2:])):
                return mk("pow", v.a[3], i)        # a table of powers (the index was checked against its length)
            return mk("idx", v, i)
        if e[0] == "s":
            return self.subslice(v, e[1], e[2])
        raise RuntimeError(e)

    def typed(self, t, ty):
        if t not in self.ity:
            r = self.prog.int_ty(ty) if ty is not None else None
            if r is not None:
                self.ity[t] = r
        return t

    def zero(self, ty):
        """the value zeroed account data deserialises to"""
        d = self.prog.tk(ty)
        if d["k"] in ("int", "char"):
            return I(0)
        if d["k"] == "bool":
            return FALSE
        if d["k"] == "array" and self.prog.tk(d["t"])["k"] == "int" and d["n"] and d["n"] <= 64:
            return agg("array", self.prog.intname(d["t"]), *[I(0)] * d["n"])
        if d["k"] == "adt":
            if d["d"] == "core::option::Option":
                return tm.NONE
            if d["d"] == "solana_program::pubkey::Pubkey":
                return tm.X(bytes(32))
        if d["k"] == "adt" and d["d"] in ("alloc::vec::Vec", "alloc::string::String"):
            return tm.X(b"")
        return mk("zeroed", self.prog.ts(ty))

    def subslice(self, v, lo, hi):
        """v[lo..hi] with integer or term bounds"""
        n = self.length(v)
        if lo.op == "int" and hi.op == "int" and n.op == "int":
            a, b = lo.a[0], hi.a[0]
            if v.op == "agg":
                return agg("array", v.a[1], *v.a[2 + a:2 + b])
            if v.op == "bytes":
                return tm.X(v.a[0][a:b])
            if v.op == "cat" and 0 <= a <= b <= n.a[0]:
                out, o = [], 0
                for x in v.a:
                    m = self.length(x).a[0]
                    if max(a, o) < min(b, o + m):
                        out.append(self.subslice(x, I(max(a, o) - o), I(min(b, o + m) - o)))
                    o += m
                return tm.cat(*out)
        if lo == I(0) and hi is n:
            return v
        if v.op == "accs":
            return mk("accs", tm.add(v.a[0], lo))
        if v.op == "slice" and lo.op in ("int", "lin"):
            return mk("slice", v.a[0], tm.add(v.a[1], lo), tm.add(v.a[1], hi))
        return mk("slice", v, lo, hi)

    def length(self, v):
        if v.op == "agg" and v.a[0] == "array":
            return I(len(v.a) - 2)
        if v.op == "bytes":
            return I(len(v.a[0]))
        if v.op == "str":
            return I(len(v.a[0].encode()))
        if v.op == "rep":
            return I(v.a[1])
        if v.op == "fill":
            return v.a[1]
        if v.op == "slice":
            return tm.sub(v.a[2], v.a[1])
        if v.op == "cat":
            n = I(0)
            for x in v.a:
                n = tm.add(n, self.length(x))
            return n
        if v.op == "accs":
            return mk("infra", "naccs", v.a[0])
        n = self.lens.get(v)
        if n is not None:
            return I(n)
        if v.op == "be" or v.op == "le_":
            return I(v.a[1])
        return mk("len", v)

    def fieldty(self, base, i):
        """type of field i of struct type `base` when it is not generic"""
        d = self.prog.tk(base)
        a = self.prog.adts.get(d.get("d"))
        return a["v"][0]["f"][i][1] if a else None

    def expand(self, v, e):
        """an opaque struct/tuple/enum payload as an aggregate, so that a field can be replaced"""
        p = self.prog
        d = p.tk(e.base)
        if d["k"] == "adt" and d["d"] in p.adts:
            a = p.adts[d["d"]]
            var = a["v"][0]
            if e.variant is not None:
                var = next(x for x in a["v"] if x["n"] == e.variant)
                return mk("agg", d["d"], var["n"], *[mk("vfld", v, var["n"], f[0]) for f in var["f"]])
            return mk("agg", d["d"], var["n"], *[self.get(v, Elem("f", i, f[0], d["d"], None, self.fieldty(e.base, i), e.base)) for i, f in enumerate(var["f"])])
        if d["k"] == "tuple":
            return tm.tup(*[tm.proj(v, str(i)) for i in range(len(d["a"]))])
        return None

    def setv(self, v, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        if isinstance(e, Elem):
            if v is None:
                v = tm.sym("uninit")
            if v.op != "agg":
                x = self.expand(v, e)
                if x is None:
                    return mk("updf", v, e.name, self.setv(self.get(v, e), rest, new))
                v = x
            if e.variant is not None and v.a[1] != e.variant and e.adt == v.a[0]:
                return mk("bottom")
            a = list(v.a)
            while len(a) <= 2 + e.i:
                a.append(tm.sym("uninit"))
            a[2 + e.i] = self.setv(a[2 + e.i], rest, new)
            return agg(*a)
        if e[0] == "x":
            i = e[1]
            if v.op == "bytes" and i.op == "int":
                v = mk("agg", "array", "u8", *[I(c) for c in v.a[0]])
            if v.op == "rep" and i.op == "int":
                v = mk("agg", "array", "u8", *[v.a[0]] * v.a[1])
            if v.op == "agg" and i.op == "int" and 2 + i.a[0] < len(v.a):
                a = list(v.a)
                a[2 + i.a[0]] = self.setv(a[2 + i.a[0]], rest, new)
                return agg(*a)
            if v.op == "cat" and i.op == "int" and not rest and self.length(v).op == "int":
                return self.spliced(v, i, tm.add(i, I(1)), agg("array", "u8", new)) or mk("upd", v, i, new)
            return mk("upd", v, i, self.setv(self.get(v, e), rest, new))
        if e[0] == "s":
            x = self.spliced(v, e[1], e[2], new) if not rest else None
            if x is not None:
                return x
            return mk("upds", v, e[1], e[2], self.setv(self.get(v, e), rest, new))
        raise RuntimeError(e)

    def spliced(self, v, lo, hi, new):
        """the byte string v with [lo, hi) replaced; None unless all positions are known numbers"""
        if not (v.op in ("bytes", "cat", "tob") or v.op == "agg" and v.a[:2] == ("array", "u8")):
            return None
        n, m = self.length(v), self.length(new)
        if not (n.op == m.op == lo.op == hi.op == "int" and 0 <= lo.a[0] <= hi.a[0] <= n.a[0] and m.a[0] == hi.a[0] - lo.a[0]):
            return None
        return tm.cat(self.subslice(v, I(0), lo), new, self.subslice(v, hi, n))

    def rd(self, st, cell, path):
        v = st.store.get(cell)
        if v is None:
            v = tm.sym("uninit")
        for e in path:
            v = self.get(v, e)
        return v

    def wr(self, st, loc, v):
        if loc[0] == "c":
            _, cell, path = loc
            st.store[cell] = self.setv(st.store.get(cell), path, v)
        else:
            # write through an opaque reference: give it a cell
            base = loc[1]
            self.ocell(st, base)
            st.store[st.omap[base]] = v

    def ocell(self, st, base):
        c = st.omap.get(base)
        if c is None:
            st.nheap += 1
            c = st.omap[base] = ("o", st.nheap)
            st.store[c] = base
        return c

    def loc(self, st, fid, place, mut=False):
        local, elems, _ = place
        cur = ("c", (fid, local), ())
        for e in elems:
            if e.k == "*":
                v = self.rd(st, cur[1], cur[2]) if cur[0] == "c" else cur[1]
                cur = self.deref_loc(st, v, mut)
                continue
            if e.k == "f":
                pe = e
            elif e.k == "i":
                pe = ("x", st.store.get((fid, e.i), tm.sym("uninit")))
            else:
                v = self.rd(st, cur[1], cur[2]) if cur[0] == "c" else cur[1]
                n = self.length(v)
                if e.k == "c":
                    off, _, fe = e.i
                    pe = ("x", tm.sub(n, I(off)) if fe else I(off))
                else:
                    lo, hi, fe = e.i
                    pe = ("s", I(lo), tm.sub(n, I(hi)) if fe else I(hi))
            if cur[0] == "c":
                cur = ("c", cur[1], cur[2] + (pe,))
            else:
                cur = ("v", self.get(cur[1], pe))
        return cur

    def deref_loc(self, st, v, mut=False):
        if v.op == "ref":
            return ("c", v.a[0], v.a[1])
        c = st.omap.get(v)
        if c is not None:
            return ("c", c, ())
        if mut and v.op not in tm.LIT and v.op != "agg":
            return ("c", self.ocell(st, v), ())
        return ("v", v)

    def deref(self, st, v):
        l = self.deref_loc(st, v)
        return self.rd(st, l[1], l[2]) if l[0] == "c" else l[1]

    def store_through(self, st, r, v):
        """*r = v"""
        self.wr(st, self.deref_loc(st, r, True), v)

    def snap(self, st, v, depth=0):
        """v with references replaced by what they point to"""
        if not v._hr:
            return v
        if depth > 40:
            return tm.sym("cyclic")
        if v.op == "ref":
            return self.snap(st, self.rd(st, v.a[0], v.a[1]), depth + 1)
        kids = [self.snap(st, x, depth + 1) for x in v.a if isinstance(x, T)]
        return tm.rebuild(v, kids)

    # ---------------------------------------------------------- expressions
    def op(self, st, fid, o):
        if o[0] == "k":
            return o[1]
        l = self.loc(st, fid, o[1])
        return self.rd(st, l[1], l[2]) if l[0] == "c" else l[1]

    def rvalue(self, st, fid, r):
        k = r[0]
        if k == "use":
            return self.op(st, fid, r[1])
        if k == "ref":
            mut = bool(r[1])
            l = self.loc(st, fid, r[2], mut)
            if l[0] == "v":
                return l[1]
            if mut:
                if not l[2]:
                    v = self.rd(st, l[1], ())
                return mk("ref", l[1], l[2])
            return self.rd(st, l[1], l[2])
        if k == "agg":
            ops = [self.op(st, fid, o) for o in r[3]]
            if r[1] == "rawptr":
                return ops[0]
            if r[1] in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
                return ops[0]
            vn = r[2]
            if r[1] == "array":
                vn = self.prog.ts(self.prog.opty(r[3][0])) if r[3] else ""
            if r[4] is not None and r[4] not in (-1, None):
                # union
                return agg(r[1], vn, *ops)
            return agg(r[1], vn, *ops)
        if k == "bin":
            a, b = self.op(st, fid, r[2]), self.op(st, fid, r[3])
            v = self.shifted(st, r[1], a, b, r[4])
            return v if v is not None else self.binop(r[1], a, b, r[4])
        if k == "cbin":
            a, b = self.op(st, fid, r[2]), self.op(st, fid, r[3])
            v = self.arith(r[1], a, b)
            o = FALSE
            it = self.prog.int_ty(r[4])
            if v.op == "int" and it:
                lo, hi = (-(1 << it[0] - 1), (1 << it[0] - 1) - 1) if it[1] else (0, (1 << it[0]) - 1)
                o = B(not lo <= v.a[0] <= hi)
            elif v.op != "int":
                o = mk("ovf", r[1], a, b)
            return tm.tup(v, o)
        if k == "cast":
            return self.cast(st, r[1], self.op(st, fid, r[2]), r[4], r[3])
        if k == "discr":
            l = self.loc(st, fid, r[1])
            v = self.rd(st, l[1], l[2]) if l[0] == "c" else l[1]
            return self.discr_of(v, r[2])
        if k == "len":
            l = self.loc(st, fid, r[1])
            return self.length(self.rd(st, l[1], l[2]) if l[0] == "c" else l[1])
        if k == "rep":
            v, n = self.op(st, fid, r[1]), r[2]
            if isinstance(n, int) and n <= 1024 and v.op == "int":
                t = self.prog.intname(self.prog.opty(r[1]))
                if n <= 64 or t == "u8":
                    return agg("array", t, *[v] * n)
            return mk("rep", v, n)
        if k == "un":
            v = self.op(st, fid, r[2])
            if r[1] == "Not":
                if self.prog.tk(r[3])["k"] == "bool":
                    return b_not(v)
                t = self.prog.intname(r[3])
                if v.op == "int" and t[0] == "u" and t[1:].isdigit():
                    return I((1 << int(t[1:])) - 1 - v.a[0])
                return mk("bnot", v, t)
            if r[1] == "Neg":
                return tm.neg(v)
            if r[1] == "PtrMetadata":
                return self.length(self.deref(st, v))
            return mk("un", r[1], v)
        if k == "setd":
            return None
        return self.havoc("rv:" + str(k))

    def discr_of(self, v, adt):
        if v.op == "agg" and v.a[0] in tm._ADTS:
            for n, d in tm._ADTS[v.a[0]]:
                if n == v.a[1]:
                    return I(d)
        if adt is None:
            return I(0) if v.op == "agg" else mk("discr", v, "?")
        return discr(v, adt)

    def arith(self, op, a, b):
        if op == "Add":
            return tm.add(a, b)
        if op == "Sub":
            return tm.sub(a, b)
        if op == "Mul":
            return tm.mul(a, b)
        return mk("arith", op, a, b)

    def shifted(self, st, op, a, b, ty):
        """shifts and bit operations that are plain arithmetic, when the ranges show it"""
        if op not in ("Shl", "ShlUnchecked", "BitOr", "BitXor") or a.op == b.op == "int":
            return None
        it = self.prog.int_ty(ty)
        if it is None or it[1]:
            return None
        if op.startswith("Shl"):
            if b.op == "int" and 0 < b.a[0] < it[0]:
                lo, hi = self.range_of(st, a)
                if lo is not None and lo >= 0 and hi is not None and hi << b.a[0] < 1 << it[0]:
                    return tm.mul(I(1 << b.a[0]), a)
            return None
        for x, y in ((a, b), (b, a)):
            c, m = tm.lin(x)
            if m and all(k > 1 for k in m.values()):
                lo, hi = self.range_of(st, y)
                if lo is not None and lo >= 0 and hi is not None:
                    j = 1 << hi.bit_length()
                    if c % j == 0 and all(k % j == 0 for k in m.values()):
                        return tm.add(x, y)
        return None

    def binop(self, op, a, b, ty):
        p = self.prog
        k = p.tk(ty)["k"]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if k == "bool":
                if op in ("Eq", "Ne"):
                    if a.op == "bool":
                        a, b = b, a
                    if b.op == "bool":
                        r = a if b.a[0] else b_not(a)
                    else:
                        r = mk("eq", *sorted((a, b), key=lambda t: t.id)) if a is not b else TRUE
                    return r if op == "Eq" else b_not(r)
                return mk("boolcmp", op, a, b)
            num = k in ("int", "char")
            if not num and k in ("ptr", "ref"):
                if op in ("Eq", "Ne"):
                    r = mk("ptreq", a, b) if a is not b else TRUE
                    return r if op == "Eq" else b_not(r)
                return mk("ptrcmp", op, a, b)
            u = p.unsigned(ty)
            if op == "Eq":
                return eq(a, b, num)
            if op == "Ne":
                return b_not(eq(a, b, num))
            if op == "Lt":
                return lt(a, b, u)
            if op == "Le":
                return le(a, b, u)
            if op == "Gt":
                return lt(b, a, u)
            return le(b, a, u)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if k == "bool":
                if op == "BitAnd":
                    return b_and(a, b)
                if op == "BitOr":
                    return tm.b_or(a, b)
                return b_not(mk("eq", *sorted((a, b), key=lambda t: t.id)))
            return tm.comm({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op], a, b)
        if op == "Div":
            return tm.div(a, b)
        if op == "Rem":
            return tm.rem(a, b)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if a.op == b.op == "int":
                n = p.int_ty(ty)[0]
                return I((a.a[0] << b.a[0]) & ((1 << n) - 1) if op.startswith("Shl") else a.a[0] >> b.a[0])
            return mk("shl" if op.startswith("Shl") else "shr", a, b)
        if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(op[:3], a, b)
        if op in ("Add", "Sub", "Mul"):
            v = self.arith(op, a, b)
            if v.op == "int":
                n, s = p.int_ty(ty) or (64, False)
                return I(v.a[0] & ((1 << n) - 1)) if not s else v
            return mk("wrap", op, a, b, p.intname(ty))
        if op == "Cmp":
            return mk("cmp3", a, b, "u" if p.unsigned(ty) else "s")
        if op == "Offset":
            return mk("offset", a, b)
        return mk("bin", op, a, b)

    def cast(self, st, kind, v, src, dst):
        p = self.prog
        if kind == "int":
            si, di = p.int_ty(src), p.int_ty(dst)
            if si is None or di is None:
                return v
            if v.op == "bool":
                return I(1 if v.a[0] else 0)
            if p.tk(src)["k"] == "bool":
                return mk("b2i", v)
            if v.op == "discr" and v.a[1] in tm._ADTS:
                dlo, dhi = (-(1 << di[0] - 1), (1 << di[0] - 1) - 1) if di[1] else (0, (1 << di[0]) - 1)
                if all(dlo <= d <= dhi for _, d in tm._ADTS[v.a[1]]):
                    for vn, d in tm._ADTS[v.a[1]]:
                        if self.decide(st, isv(v.a[0], v.a[1], vn)) is True:
                            return I(d)
                    return v
            r = self.intcast(v, si, di)
            if r.op == "trunc" and self.fits(st, v, si, di):
                return v
            return r
        if kind.startswith("coerce:Unsize"):
            d = p.tk(src)
            n = self.arrlen(d.get("t")) if d["k"] in ("ref", "ptr") else self.arrlen((d.get("a") or [None])[0])
            if n is not None and v.op not in ("agg", "bytes", "ref"):
                self.lens[v] = n
        return v

    def range_of(self, st, v):
        """(lo, hi) of an integer term, from its atoms' types and the facts"""
        c, m = tm.lin(v)
        lo, hi = self.interval(st, c, m)
        l2, h2 = c, c
        for x, k in m.items():
            r = self.ity.get(x)
            a, b = self.atom_bounds(st, x)
            if r is not None:
                tl, th = (-(1 << r[0] - 1), (1 << r[0] - 1) - 1) if r[1] else (0, (1 << r[0]) - 1)
                a = tl if a is None else max(a, tl)
                b = th if b is None else min(b, th)
            if k < 0:
                a, b = b, a
            l2 = None if l2 is None or a is None else l2 + k * a
            h2 = None if h2 is None or b is None else h2 + k * b
        lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
        hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        return lo, hi

    def fits(self, st, v, si, di):
        """the cast si -> di provably preserves the value of v"""
        dlo, dhi = (-(1 << di[0] - 1), (1 << di[0] - 1) - 1) if di[1] else (0, (1 << di[0]) - 1)
        lo, hi = self.range_of(st, v)
        okl = not si[1] or (lo is not None and lo >= dlo) or (di[1] and di[0] >= si[0])
        okh = hi is not None and hi <= dhi
        if not okh and (di[0] - (1 if di[1] else 0)) >= (si[0] - (1 if si[1] else 0)):
            okh = True
        if not okh:
            # v <= y for some y of a type that fits
            for L, (l, h) in st.bounds.items():
                if h is not None:
                    d = tm.sub(v, L)
                    y, n = d, h
                    if y.op not in ("int",):
                        r = self.range_of(st, y)[1]
                        if r is not None and r + n <= dhi:
                            okh = True
                            break
                if l is not None:
                    # L >= l with L = y - v
                    y = tm.add(v, L)
                    if y.op != "int":
                        r = self.range_of(st, y)[1]
                        if r is not None and r - l <= dhi:
                            okh = True
                            break
        return okl and okh

    def arrlen(self, ty):
        d = self.prog.tk(ty)
        return d["n"] if d["k"] == "array" and isinstance(d.get("n"), int) else None

    @staticmethod
    def intcast(v, si, di):
        if v.op == "int":
            n = v.a[0] & ((1 << di[0]) - 1)
            if di[1] and n >> (di[0] - 1):
                n -= 1 << di[0]
            return I(n)
        if (not si[1] and (di[0] > si[0] or (di[0] == si[0] and not di[1]))) or (si[1] and di[1] and di[0] >= si[0]):
            return v
        if v.op == "discr":
            return v
        return mk("trunc", v, ("i" if di[1] else "u") + str(di[0]))

    # -------------------------------------------------------------- control
    def where(self):
        if not self.stack:
            return ("?", 0, "?")
        f, line = self.stack[-1]
        return (f.sp[0], line, f.key)

    def local_where(self):
        """innermost frame that lies in the repository"""
        for f, line in reversed(self.stack):
            if not f.sp[0].startswith("/"):
                return (f.sp[0], line, f.key)
        return self.where()

    def effect(self, st, kind, *a, **kw):
        st.eff = st.eff + (Effect(kind, tuple(self.snap(st, x) if isinstance(x, T) else x for x in a), self.local_where(),
                                  kw={k: self.snap(st, v) if isinstance(v, T) else v for k, v in kw.items()}),)

    def fork(self, st, cond):
        """[(bool, state)] for the feasible truth values of cond"""
        d = self.decide(st, cond)
        if d is not None:
            return [(d, st)]
        self.nforks += 1
        out = []
        s2 = st.copy()
        if self.assume(st, cond, True):
            out.append((True, st))
        if self.assume(s2, cond, False):
            out.append((False, s2))
        return out

    def run(self, key, args, st):
        """abstract effect of calling `key`: [(return value, state)]"""
        f = self.prog.fn(key)
        if len(self.stack) > 80 or sum(1 for g, _ in self.stack if g is f) > 3:
            return [(self.havoc("deep:" + key), st)]
        self.nfid += 1
        fid = self.nfid
        self.trace_fns.add(f.key)
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
        loops = self.prog.loops(f)
        inloop = {}
        for h, body in loops.items():
            for b in body:
                inloop.setdefault(b, []).append(h)
        out = []
        loopeff = {}
        work = [(0, st, {}, None)]
        self.stack.append((f, f.sp[1]))
        try:
            while work:
                if len(work) + len(out) > MAXSTATES:
                    raise TooMany(key)
                bb, s, li, prev = work.pop()
                if bb in loops:
                    li, s = self.at_header(f, fid, s, bb, li, prev, loops, loopeff)
                    if s is None:
                        continue
                self.visited.add((f.key, bb))
                self.steps += 1
                stmts, term, line = f.bbs[bb]
                for place, rv, ln in stmts:
                    self.stack[-1] = (f, ln)
                    if rv[0] == "setd":
                        continue
                    v = self.rvalue(s, fid, rv)
                    if not place[1]:
                        s.store[(fid, place[0])] = v
                    else:
                        self.wr(s, self.loc(s, fid, place, True), v)
                self.stack[-1] = (f, line)
                k = term[0]
                if k == "goto":
                    work.append((term[1], s, li, bb))
                elif k == "switch":
                    s0 = s.copy() if bb in inloop else None
                    nxt = self.switch(s, fid, term)
                    if len(nxt) == 2 and bb in inloop:
                        j = self.rejoined(f, fid, s0, term, nxt, loops)
                        if j is not None:
                            work.append((j[0], j[1], li, bb))
                            continue
                    if len(nxt) > 1:
                        self.nforks += 1
                        li = self.mark_sym(li, inloop, bb)
                    elif bb in inloop:
                        li = self.mark_known(f, li, inloop, bb, term, loops)
                    for t, s2 in reversed(nxt):
                        work.append((t, s2, li, bb))
                elif k == "ret":
                    out.append((s.store.get((fid, 0), UNIT), s, li))
                elif k == "call":
                    rs = self.docall(s, fid, f, term)
                    if len(rs) > 1:
                        li = self.mark_sym(li, inloop, bb)
                    if term[4] is not None:
                        for v, s2 in reversed(rs):
                            pl = term[3]
                            if not pl[1]:
                                s2.store[(fid, pl[0])] = v
                            else:
                                self.wr(s2, self.loc(s2, fid, pl, True), v)
                            work.append((term[4], s2, li, bb))
                elif k == "assert":
                    c = self.op(s, fid, term[1])
                    if self.assume(s, c, bool(term[2])):
                        work.append((term[3], s, li, bb))
                # abort / unreach: path ends
        finally:
            self.stack.pop()
        res = []
        n = f.nlocals
        for v, s, li in out:
            extra = []
            for h, effs in loopeff.items():
                if h in li and li[h].stage >= 1:
                    extra += [e for e in effs if e not in extra]
            if extra:
                s.eff = s.eff + tuple(extra)
            st_ = s.store
            for i in range(n):
                st_.pop((fid, i), None)
            res.append((v, s))
        return self.merge_errs(self.dedup(res))

    def rejoined(self, f, fid, s0, term, nxt, loops):
        """a branch whose sides only add different constants to numbers and meet again is no branch:
        (where they meet, the state there); s0 is the state before it"""
        if self.prog.tk(term[4])["k"] != "bool" and self.prog.int_ty(term[4]) is None:
            return None
        chains = []
        for t, _ in nxt:
            ch = [t]
            while len(ch) < 8 and ch[-1] not in loops:
                e = f.bbs[ch[-1]][1]
                if e[0] == "goto":
                    ch.append(e[1])
                elif e[0] == "assert":
                    ch.append(e[3])
                else:
                    break
            chains.append(ch)
        join = next((b for b in chains[0] if b in chains[1]), None)
        if join is None:
            return None
        ends = []
        for (t, s), ch in zip(nxt, chains):
            s = s.copy()
            for b in ch[:ch.index(join)]:
                stmts, e, _ = f.bbs[b]
                for place, rv, _ in stmts:
                    if rv[0] == "setd":
                        continue
                    if place[1] or rv[0] == "ref":
                        return None
                    v = s.store[(fid, place[0])] = self.rvalue(s, fid, rv)
                    it = self.prog.int_ty(rv[4]) if rv[0] == "cbin" else None
                    if it and v.op == "agg" and v.a[-1].op == "ovf":
                        lo, hi = self.range_of(s, v.a[-2])
                        if lo is not None and hi is not None and (-(1 << it[0] - 1) if it[1] else 0) <= lo and hi < 1 << it[0] - it[1]:
                            s.store[(fid, place[0])] = tm.tup(v.a[-2], FALSE)
                if e[0] == "assert" and self.decide(s, self.op(s, fid, e[1])) is not bool(e[2]):
                    return None
            ends.append(s)
        x, y = ends
        if x.eff != y.eff or x.ver != y.ver or x.omap != y.omap:
            return None
        v = self.op(s0, fid, term[1])
        k = next((int(k) for k, t in term[2] if t == nxt[0][0]), None)
        if k is None or nxt[0][0] == nxt[1][0]:
            return None
        isb = self.prog.tk(term[4])["k"] == "bool"
        c = (v if k else b_not(v)) if isb else eq(v, I(k), True)
        one = lambda cond: mk("b2i", cond)
        out = s0
        for cell in set(x.store) | set(y.store):
            p, q = x.store.get(cell), y.store.get(cell)
            if p is q:
                if p is not None:
                    out.store[cell] = p
                continue
            if p is None or q is None:          # assigned on one side only: not used where they meet, or not at all
                if cell[0] != fid:
                    return None
                out.store.pop(cell, None)
                continue
            if p.op == q.op == "agg" and p.a[0] == q.a[0] == "tuple":       # the result of a checked operation
                out.store.pop(cell, None)
                continue
            d = tm.sub(p, q)
            if d.op != "int" or not all(z.op in ("int", "lin", "b2i") for z in (p, q)):
                return None
            n = d.a[0]
            out.store[cell] = tm.add(q, tm.mul(I(n), one(c))) if n > 0 else tm.add(p, tm.mul(I(-n), one(b_not(c))))
        return join, out

    def dedup(self, res):
        """paths that differ only in branches on rent, lamports and the like are one"""
        if len(res) < 2:
            return res
        out, seen = [], {}
        for v, s in res:
            k = (v, len(s.eff), len(s.facts), s.ver)
            for w in seen.setdefault(k, []):
                if w.eff == s.eff and w.facts == s.facts and w.store == s.store and w.omap == s.omap:
                    break
            else:
                seen[k].append(s)
                out.append((v, s))
        return out

    def mark_sym(self, li, inloop, bb):
        hs = inloop.get(bb)
        if not hs:
            return li
        li = dict(li)
        for h in hs:
            L = li.get(h)
            if L is not None:
                li[h] = L.mark("c!" if L.sy in ("c", "c!") else True)
        return li

    def mark_known(self, f, li, inloop, bb, term, loops):
        """a decided branch that could have left the loop, before any undecided one"""
        ts = [t for t in [t for _, t in term[2]] + [term[3]] if t is not None and f.bbs[t][1][0] not in ("unreach", "abort")]
        for h in inloop[bb]:
            L = li.get(h)
            if L is not None and L.sy is False and any(t not in loops[h] for t in ts):
                li = dict(li)
                li[h] = L.mark("c")
        return li

    def at_header(self, f, fid, s, h, li, prev, loops, loopeff):
        body = loops[h]
        if prev not in body:        # entering
            li = dict(li)
            li[h] = Loop(s, self.nhavoc)
            return li, s
        L = li.get(h) or Loop(s, self.nhavoc)
        li = dict(li)
        if L.stage >= 1:
            # what an iteration may do
            new = s.eff[len(L.effs):]
            if new:
                lst = loopeff.setdefault(h, [])
                for e in new:
                    e2 = Effect(e.kind, e.a, e.loc, True, e.kw)
                    if e2 not in lst:
                        lst.append(e2)
            if L.stage >= 12 or not self.changes(s, fid, L):
                return li, None     # the widened state covers this one
        # a loop whose first test is decided runs a known number of times, as far as it is short
        nsym = L.nsym + (1 if L.sy in (True, "c!") else 0)
        if L.stage >= 1 or (L.sy is True and not self.short_counter(f, fid, s, body) or nsym > 6) and not (L.c < 40 and self.constants(s, fid, L)) or L.c > 300:
            self.nwiden += 1
            N = Loop(s, 0, L.c + 1, L.stage + 1, nsym)
            if N.stage >= 12:
                self.widen(f, fid, s, body)
            else:
                N.hav = self.widen_changed(s, fid, L)
            N.snap, N.nh = s.store.copy(), self.nhavoc
        else:
            N = Loop(s, L.nh, L.c + 1, 0, nsym)
            N.snap = L.snap
        li[h] = N
        # inner loops are entered afresh
        for h2 in loops:
            if h2 != h and h2 in body:
                li.pop(h2, None)
        return li, s

    def loop_base(self, s, fid, L, cell):
        """what a cell held when the loop was entered (or widened); None: it did not exist"""
        old = L.snap.get(cell)
        if old is None and cell[0] == "o":
            base = next((b for b, c in s.omap.items() if c == cell), None)
            if base is not None and any(later(t, L.nh) or t in L.hav for t in tm.subterms(base)):
                return None         # an object first met in this iteration
            return base
        return old

    def changes(self, s, fid, L):
        for cell, v in s.store.items():
            old = self.loop_base(s, fid, L, cell)
            if old is not None and old is not v and not covers(old, v, L.hav):
                return True
        return False

    def widen_changed(self, s, fid, L):
        """forget what the loop body changed since the loop was entered; the set of fresh unknowns"""
        fresh, seen = set(), set()

        def new(why="loop"):
            h = self.havoc(why)
            fresh.add(h)
            return h

        def w(old, v):
            if old in L.hav:
                return new()
            if old is v and not any(t in L.hav for t in tm.subterms(old)):
                return old
            if old.op == v.op == "agg" and old.a[:2] == v.a[:2] and len(old.a) == len(v.a):
                return mk("agg", *old.a[:2], *[w(x, y) for x, y in zip(old.a[2:], v.a[2:])])
            if old.op == v.op and old.op in ("iter", "itermut", "iteradapt") and len(old.a) == len(v.a) and old.a[0] is v.a[0]:
                return mk(old.op, old.a[0], *[w(x, y) if isinstance(x, T) else x for x, y in zip(old.a[1:], v.a[1:])])
            for x in (old, v):
                if x._hr:
                    refs.append(x)
            return new()
        refs = []
        for cell, v in list(s.store.items()):
            old = self.loop_base(s, fid, L, cell)
            if old is None:
                if cell[0] == fid:      # assigned in the loop only: dead at its head
                    del s.store[cell]
                continue
            n = w(old, v)
            if n is not v:
                s.store[cell] = n
        for x in refs:
            self.havoc_refs(s, x, seen, fresh)
        return frozenset(fresh)

    def constants(self, s, fid, L):
        """all the loop has changed so far are numbers, now known ones: unrolled as long as it may go on"""
        if L.snap is None or len(s.eff) != len(L.effs):
            return False

        def const(old, v):
            if old is v:
                return True
            if old.op == v.op == "agg" and old.a[:2] == v.a[:2] and len(old.a) == len(v.a):
                return all(const(x, y) for x, y in zip(old.a[2:], v.a[2:]))
            if old.op == "int" and v.op == "int":
                known.append(v)
                return True
            # a counter that started from an unknown value
            return old.op in ("sym", "lin", "fld", "from", "cast") and v.op == "lin" and tm.sub(v, old).op == "int"
        some, known = False, []
        for cell, v in s.store.items():
            old = self.loop_base(s, fid, L, cell)
            if old is None or old is v:
                continue
            if not const(old, v):
                return False
            some = True
        return some and bool(known)

    def short_counter(self, f, fid, s, body):
        """a loop counting a known, short range: unrolled although its body branches"""
        for b in body:
            for place, rv, _ in f.bbs[b][0]:
                if rv[0] == "ref" and rv[1] and not rv[2][1]:
                    v = s.store.get((fid, rv[2][0]))
                    if v is not None and v.op == "agg" and v.a[0].endswith("range::Range") and len(v.a) == 4 \
                            and v.a[2].op == "int" and v.a[3].op == "int" and v.a[3].a[0] - v.a[2].a[0] <= 4:
                        return True
        return False

    def widen(self, f, fid, s, body):
        locs = set()
        mention = set()

        def use_place(p):
            mention.add(p[0])

        def use_op(o):
            if o[0] == "p":
                use_place(o[1])
        for b in body:
            stmts, term, _ = f.bbs[b]
            for place, rv, _ in stmts:
                if any(e.k == "*" for e in place[1]):
                    mention.add(place[0])
                else:
                    locs.add(place[0])
                if rv[0] == "ref":
                    if rv[1]:
                        if any(e.k == "*" for e in rv[2][1]):
                            mention.add(rv[2][0])
                        else:
                            locs.add(rv[2][0])
                for x in rv[1:]:
                    if isinstance(x, tuple) and x and x[0] == "p":
                        use_op(x)
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, tuple) and y and y[0] == "p":
                                use_op(y)
            if term[0] == "call":
                for a in term[2]:
                    use_op(a)
                if any(e.k == "*" for e in term[3][1]):
                    mention.add(term[3][0])
                else:
                    locs.add(term[3][0])
        seen = set()
        for l in mention:
            v = s.store.get((fid, l))
            if v is not None and v._hr:
                self.havoc_refs(s, v, seen)
        for l in locs:
            v = s.store.get((fid, l))
            if v is not None:
                if v._hr:
                    self.havoc_refs(s, v, seen)
                s.store[(fid, l)] = self.widen_val(v)

    def widen_val(self, v):
        if v.op == "iter":
            return mk("iter", v.a[0], self.havoc("pos"), *v.a[2:])
        if v.op == "agg" and v.a[0].startswith("core::iter") or v.op == "iteradapt":
            return mk(v.op, *[self.widen_val(x) if isinstance(x, T) else x for x in v.a])
        return self.havoc("loop")

    def havoc_refs(self, s, v, seen, fresh=None):
        for t in tm.subterms(v):
            if t.op == "ref" and t not in seen:
                seen.add(t)
                if t.a[0] not in s.store:
                    continue
                old = self.rd(s, t.a[0], t.a[1])
                if fresh is not None and old in fresh:
                    continue
                if old._hr:
                    self.havoc_refs(s, old, seen, fresh)
                n = self.widen_val(old)
                if fresh is not None:
                    fresh.update(x for x in tm.subterms(n) if x.op == "sym" and str(x.a[0]).startswith("havoc:") and x not in tm.subterms(old))
                self.wr(s, ("c", t.a[0], t.a[1]), n)

    def switch(self, s, fid, term):
        _, o, targets, other, ty = term
        v = self.op(s, fid, o)
        isb = self.prog.tk(ty)["k"] == "bool"
        if v.op == "int" or v.op == "bool":
            n = int(v.a[0])
            for k, t in targets:
                if int(k) == n:
                    return [(t, s)]
            return [(other, s)] if other is not None else []
        conds = []
        for k, t in targets:
            k = int(k)
            if isb:
                c = v if k else b_not(v)
            else:
                c = eq(v, I(k), True)
            conds.append((c, t))
        out, negs = [], []
        live = s
        for c, t in conds:
            d = self.decide(live, c)
            if d is True:
                out.append((t, live))
                live = None
                break
            if d is False:
                continue
            s2 = live.copy()
            if self.assume(s2, c, True):
                out.append((t, s2))
            if not self.assume(live, c, False):
                live = None
                break
        if live is not None and other is not None:
            # otherwise-edge to an unreachable block is no path
            if not (f_unreach(self, other)):
                out.append((other, live))
        return [(t, x) for t, x in out if not self.is_unreach(t)]

    def is_unreach(self, t):
        f = self.stack[-1][0]
        b = f.bbs[t]
        return not b[0] and b[1][0] == "unreach"

    # ----------------------------------------------------------------- calls
    def docall(self, s, fid, f, term):
        _, callee, args, dest, _ = term
        self.ncalls += 1
        av = [self.op(s, fid, a) for a in args]
        atys = [self.prog.opty(a) for a in args]
        if callee[0] == "ind":
            fv = self.op(s, fid, callee[1])
            return self.call_value(s, fv, av, atys, dest[2])
        _, d, targs, r = callee
        return self.call_named(s, d, targs, r, av, atys, dest[2])

    def call_value(self, s, fv, av, atys, rty):
        if fv.op == "fnitem":
            return self.call_named(s, fv.a[1], fv.a[3], fv.a[0], av, atys, rty)
        if fv.op == "ref":
            return self.call_value(s, self.deref(s, fv), av, atys, rty)
        if fv.op == "agg" and fv.a[0].startswith("closure:"):
            return self.call_closure(s, fv, av)
        return self.opaque(s, "indirect", [fv] + av, [None] + list(atys), rty)

    def call_closure(self, s, cv, av):
        """cv: closure value, or a ref to it"""
        v = self.deref(s, cv) if cv.op == "ref" else cv
        ty = self.prog.tk(int(v.a[1])) if v.a[1].isdigit() else {}
        key = ty.get("r") or v.a[0][len("closure:"):]
        f = self.prog.fn(key)
        if f is None:
            return self.opaque(s, key, [cv] + av, [None] * (1 + len(av)), None)
        selfty = self.prog.tk(f.locals[1])
        env = v
        if selfty["k"] == "ref" and selfty.get("m"):
            env = cv if cv.op == "ref" else self.alloc(s, v)
        if f.spread is not None and False:
            pass
        return self.run(key, [env] + list(av), s)

    def call_named(self, s, d, targs, r, av, atys, rty):
        name = r or d
        m = self.cache.get(name, 0)
        if m == 0:
            m = self.cache[name] = self.models.find(name, d)
        if m is not None:
            c = Call(self, name, d, targs, r, atys, rty)
            x = m(self, s, av, c)
            if x is not NotImplemented:
                if isinstance(x, T):
                    return [(x, s)]
                return x
        # closures and function values through Fn* traits
        if d in ("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut"):
            fv = av[0]
            tup_ = av[1]
            xs = list(tm.fields(tup_)) if tup_.op == "agg" else None
            base = self.deref(s, fv) if fv.op == "ref" else fv
            if xs is not None and base.op == "fnitem":
                return self.call_value(s, base, xs, [None] * len(xs), rty)
            if xs is not None and base.op == "agg" and base.a[0].startswith("closure:"):
                return self.call_closure(s, fv if fv.op == "ref" else base, xs)
        # tuple-struct constructors used as functions
        if r is not None and r in self.prog.raw:
            return self.run(r, av, s)
        ctor = self.ctor(d, targs, av, rty)
        if ctor is not None:
            return [(ctor, s)]
        return self.opaque(s, name, av, atys, rty)

    def ctor(self, d, targs, av, rty):
        p = self.prog
        rd = p.tk(rty) if rty is not None else {}
        if d in p.adts and p.adts[d]["kind"] == "struct":
            return agg(d, p.adts[d]["v"][0]["n"], *av)
        base, _, vn = d.rpartition("::")
        if base in p.adts and p.adts[base]["kind"] == "enum":
            for v in p.adts[base]["v"]:
                if v["n"] == vn and len(v["f"]) == len(av):
                    return agg(base, vn, *av)
        return None

    def opaque(self, s, name, av, atys, rty):
        """an unmodelled external callee: an unknown function of its arguments that may
        write through every mutable reference it is handed"""
        base = re.sub(r"::<.*>$", "", name)
        self.unknown[name] = self.unknown.get(name, 0) + 1
        sn = [self.snap(s, a) for a in av]
        ret = tm.call(name, *sn)
        muts = [i for i, (a, t) in enumerate(zip(av, atys)) if a.op == "ref" and (t is None or (self.prog.tk(t)["k"] in ("ref", "ptr") and self.prog.tk(t).get("m")))]
        if muts:
            self.nhavoc += 1
            ret = tm.call(name, *sn, I(self.nhavoc)) if False else ret
            for i in muts:
                self.store_through(s, av[i], mk("mut", name, I(i), *sn))
        return [(ret, s)]

    # -------------------------------------------------------------- joining
    def merge_errs(self, res):
        errs = [(v, s) for v, s in res if v.op == "agg" and v.a[0] == "core::result::Result" and v.a[1] == "Err"]
        if len(errs) < 2:
            return res
        oks = [(v, s) for v, s in res if not (v.op == "agg" and v.a[0] == "core::result::Result" and v.a[1] == "Err")]
        groups = {}
        for v, s in errs:
            groups.setdefault(s.eff, []).append((v, s))
        out = []
        for _, g in groups.items():
            out.append(self.join(g))
        return oks + out

    def join(self, g):
        v0, s0 = g[0]
        if len(g) == 1:
            return v0, s0
        v = v0
        for w, _ in g[1:]:
            if w is not v:
                v = tm.err(tm.sym("anyerr"))
                break
        s = s0
        for _, s2 in g[1:]:
            for a in list(s.facts):
                if s2.facts.get(a) != s.facts[a]:
                    del s.facts[a]
            for a in list(s.bounds):
                if s2.bounds.get(a) != s.bounds[a]:
                    del s.bounds[a]
            for a in list(s.eqc):
                if s2.eqc.get(a) is not s.eqc[a]:
                    del s.eqc[a]
            for c in list(s.store):
                w = s2.store.get(c)
                if w is not s.store[c]:
                    if w is None:
                        del s.store[c]
                    else:
                        s.store[c] = self.havoc("join")
            s.ver = max(s.ver, s2.ver)
            s.nheap = max(s.nheap, s2.nheap)
            for k, c in s2.omap.items():
                if k not in s.omap:
                    s.omap[k] = c
                    s.store[c] = s2.store.get(c, k)
        return v, s


def f_unreach(ip, t):
    return ip.is_unreach(t)


class Call:
    __slots__ = ("ip", "name", "d", "targs", "r", "atys", "rty")

    def __init__(self, ip, name, d, targs, r, atys, rty):
        self.ip, self.name, self.d, self.targs, self.r, self.atys, self.rty = ip, name, d, targs, r, atys, rty

    def ta(self, i):
        """generic argument as a string"""
        x = self.targs[i]
        return self.ip.prog.ts(x)
