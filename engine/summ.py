"""Per-instruction summaries: every successful path of every entry point, as the
facts that dominate it and the effects it has."""
import os
import sys

sys.setrecursionlimit(200000)
import absint
import mir
import models
import polyhedra
import terms as tm
from terms import T, I, B, X, mk, eq, b_not

_progs, _sums = {}, {}
DUMP = None


def set_dump(d):
    global DUMP
    DUMP = d


def prog(crate):
    if crate not in _progs:
        _progs[crate] = mir.load(DUMP, crate)
    return _progs[crate]


def roots(crate):
    p = prog(crate)
    pre = crate + "::__private::__global::"
    return sorted(k[len(pre):] for k in p.raw if k.startswith(pre) and not p.raw[k]["poly"] and "::" not in k[len(pre):])


_ids = {}


def ident(crate):
    """the program's declared address"""
    if crate not in _ids:
        ip, ps = run_fn(crate, crate + "::id", [])
        if len(ps) != 1 or ps[0].ret.op != "bytes":
            raise RuntimeError("no declared program id in " + crate)
        _ids[crate] = ps[0].ret
    return _ids[crate]


NUMOPS = ("int", "lin", "mul", "div", "rem", "pow", "len", "from")


def isnum(e, num):
    """an equation between integers"""
    return any(x.op in NUMOPS or x in num for x in e.a)


BOOLEAN = ("fld", "not", "and", "or", "eq", "le", "isv", "bit", "sym", "arg", "data", "call", "fldx")


class Path:
    """one successful path of one entry point (or function)"""

    def __init__(self, ip, name, ret, st, n):
        self.ip, self.name, self.ret, self.st, self.n = ip, name, ret, st, n
        self.facts, self.eff = st.facts, st.eff
        self._nf = None
        self._st2 = None
        self._poly = None
        self._empty = None

    # --- equality closure
    def _close(self):
        rep = {}
        pairs = [f.a for f, v in self.facts.items() if v and f.op == "eq"]
        # a linear form confined to one value
        ne = set()
        for f, v in self.facts.items():
            if f.op == "eq" and not v and not any(x.op in ("agg", "bytes", "bool") for x in f.a):
                c, m = tm.lin(tm.sub(*f.a))
                for sg in (1, -1):
                    ne.add((tm.mklin(0, {x: sg * k for x, k in m.items()}), -sg * c))

        def pinned(L, a, b):
            """the one value a bounded form can have, given the values it is known not to have"""
            while a is not None and b is not None and a < b and b - a < 4:
                if (L, a) in ne:
                    a += 1
                elif (L, b) in ne:
                    b -= 1
                else:
                    break
            return a if a is not None and a == b else None
        for L, (a, b) in self.st.bounds.items():
            if L.op == "lin" and len(tm.lin(L)[1]) > 1 and (a is not None or b is not None) and a != b:
                l2, h2 = self.ip.range_of(self.st, L)
                a, b = l2 if a is None else a if l2 is None else max(a, l2), h2 if b is None else b if h2 is None else min(b, h2)
            v = pinned(L, a, b)
            if v is not None:
                pairs.append((L, I(v)))

        def pri(t):
            return (0 if tm.ground(t) else 1, t._sz, t.id)

        def nf(t, memo):
            def go(x):
                r = memo.get(x)
                if r is not None:
                    return r
                kids = [y for y in x.a if isinstance(y, T)]
                nk = [go(k) for k in kids]
                y = x if all(a is b for a, b in zip(kids, nk)) else tm.rebuild(x, nk)
                if y.op == "discr" and y.a[1] in tm._ADTS:
                    for vn, d in tm._ADTS[y.a[1]]:
                        if self.ip.decide(self.st, tm.isv(y.a[0], y.a[1], vn)) is True:
                            y = tm.I(d)
                            break
                if y.op == "b2i":
                    v = self.ip.decide(self.st, y.a[0]) if y.a[0].op != "bool" else y.a[0].a[0]
                    if v is not None:
                        y = tm.I(int(v))
                if y.op == "setbit" and y.a[2].op != "bool":
                    v = self.ip.decide(self.st, y.a[2])
                    if v is not None:
                        y = tm.setbit(y.a[0], y.a[1], B(v))
                if y.op == "setbit":        # setting a bit that is known to be so
                    b = tm.bit(y.a[0], y.a[1])
                    v = self.ip.decide(self.st, b) if b.op != "bool" else b.a[0]
                    if v is not None and y.a[2] is B(v):
                        y = y.a[0]
                n = 0
                while y in rep and n < 50:
                    y = rep[y]
                    n += 1
                memo[x] = y
                return y
            return go(t)
        for _ in range(6):
            changed = False
            for a, b in pairs:
                memo = {}
                x, y = nf(a, memo), nf(b, memo)
                if x is not y:
                    if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] == "tuple":
                        continue
                    if pri(y) < pri(x):
                        x, y = y, x
                    if x.op == "lin" or y.op == "lin":
                        # solve for the largest atom that does not occur in the others
                        c, m = tm.lin(tm.sub(x, y))
                        for at in sorted(m, key=pri, reverse=True):
                            if abs(m[at]) == 1 and not any(at in tm.subterms(o) for o in m if o is not at):
                                r = tm.mul(I(-m[at]), tm.sub(tm.mklin(c, m), tm.mul(I(m[at]), at)))
                                rep[at] = r
                                break
                        else:
                            rep[y] = x
                        changed = True
                        continue
                    rep[y] = x
                    changed = True
            if not changed:
                break
        memo = {}
        self._nf = lambda t: nf(t, memo)
        st = absint.State()
        for f, v in self.facts.items():
            g = f if f.op == "eq" and v else self._nf(f)
            self.ip.assume(st, g, v)
        self._st2 = st

    def nf(self, t):
        if self._nf is None:
            self._close()
        return self._nf(t)

    def decide(self, t):
        if self._nf is None:
            self._close()
        d = self.ip.decide(self.st, t)
        if d is not None:
            return d
        n = self.nf(t)
        d = self.ip.decide(self._st2, n)
        if d is not None:
            return d
        d = self._chain(n)
        if d is not None:
            return d
        return self._poly_decide(n)

    def poly(self):
        """the path's numeric facts as a polyhedron"""
        if self._poly is None:
            if self._nf is None:
                self._close()
            st2 = self._st2

            def rng(x):
                lo, hi = self.ip.atom_bounds(st2, x)
                l1, h1 = self.ip.atom_bounds(self.st, x)
                lo = l1 if lo is None else lo if l1 is None else max(lo, l1)
                hi = h1 if hi is None else hi if h1 is None else min(hi, h1)
                r = self.ip.ity.get(x)
                if r is not None:
                    tl, th = (-(1 << r[0] - 1), (1 << r[0] - 1) - 1) if r[1] else (0, (1 << r[0]) - 1)
                    lo = tl if lo is None else max(lo, tl)
                    hi = th if hi is None else min(hi, th)
                return lo, hi
            q = polyhedra.Poly(rng)
            for bs in (st2.bounds, {self.nf(L): b for L, b in self.st.bounds.items()}, self.st.bounds):
                for L, (lo, hi) in bs.items():
                    if L.op == "int":
                        continue
                    if hi is not None:
                        q.add_le(L, hi)
                    if lo is not None:
                        q.add_le(tm.neg(L), -lo)
            num = {x for _, m in q.cons for x in m}
            for f, v in self.facts.items():
                if f.op == "eq" and isnum(f, num):
                    d = tm.sub(*f.a)
                    if v:
                        q.add_le(d, 0)
                        q.add_le(tm.neg(d), 0)
                    else:
                        q.add_ne(d)
                        q.add_ne(self.nf(d))
            self._poly = q
        return self._poly

    def _poly_decide(self, t):
        if t.op == "not":
            r = self._poly_decide(t.a[0])
            return None if r is None else not r
        if t.op == "and":
            a, b = self._poly_decide(t.a[0]), self._poly_decide(t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.op not in ("le", "eq"):
            return None
        q = self.poly()
        if t.op == "eq":
            if not isnum(t, {x for _, m in q.cons for x in m}):
                return None
            c, m = polyhedra.poly(tm.sub(*t.a))
        else:
            c, m = polyhedra.poly(t.a[0])
            c -= t.a[1]
        mm = {x: -v for x, v in m.items()}
        if not m:
            return c <= 0 if t.op == "le" else c == 0
        if t.op == "le":
            if q.entails(c, m):
                return True
            if q.entails(1 - c, mm):
                return False
            return None
        if q.entails(c, m):
            if q.entails(-c, mm):
                return True
            if q.entails(c + 1, m):
                return False
        elif q.entails(1 - c, mm):
            return False
        return None

    def empty(self):
        """no state satisfies the path's facts"""
        if self._empty is None:
            self._empty = self.poly().empty()
        return self._empty

    def _chain(self, t):
        """order facts combined pairwise: L <= k from M <= h and L - M <= k - h"""
        if t.op == "not":
            r = self._chain(t.a[0])
            return None if r is None else not r
        if t.op != "le":
            return None
        L, k = t.a
        for st in (self._st2,):
            for M, (l, h) in st.bounds.items():
                for sgn, b in ((1, h), (-1, l)):
                    if b is None:
                        continue
                    # sgn*M <= sgn*b
                    d = tm.sub(L, tm.mul(I(sgn), M))
                    if len(tm.lin(d)[1]) <= len(tm.lin(L)[1]):
                        hi = self.ip.range_of(st, d)[1]
                        if hi is not None and hi + sgn * b <= k:
                            return True
                    d = tm.add(L, tm.mul(I(sgn), M))
                    if len(tm.lin(d)[1]) <= len(tm.lin(L)[1]):
                        lo = self.ip.range_of(st, d)[0]
                        if lo is not None and lo - sgn * b > k:
                            return False
        return None

    def holds(self, t):
        return self.decide(t) is True

    def same(self, a, b):
        if a is b or self.nf(a) is self.nf(b) or self.decide(eq(a, b)) is True:
            return True
        if any(x.op == "bool" and self.decide(y) is x.a[0] for x, y in ((a, b), (b, a)) if y.op in BOOLEAN):
            return True
        return any(x.op == "not" and self.decide(eq(x.a[0], y)) is False for x, y in ((a, b), (b, a)))

    # --- queries
    def accounts(self, tyname):
        """accounts that were type-checked as `tyname` (suffix match on ::)"""
        out = []
        for f, v in self.facts.items():
            if v and f.op == "acct" and tmatch(f.a[1], tyname):
                out.append(f.a[0])
        return out

    def effects(self, *kinds):
        return [e for e in self.eff if e.kind in kinds]

    def persists(self, tyname=None):
        return [e for e in self.eff if e.kind == "persist" and (tyname is None or tmatch(e.a[1], tyname))]

    def created(self, acc):
        return [e for e in self.eff if e.kind == "sys_create" and e.a[0] is acc]

    def fact_terms(self, op):
        return [(f, v) for f, v in self.facts.items() if f.op == op]

    def show(self, out=print, facts=True):
        out(f"--- {self.name} path {self.n} ret {self.ret}")
        if facts:
            for a, b in self.facts.items():
                if a.op in ("acct", "program") or (a.op == "fld" and a.a[1] in ("is_writable",)):
                    continue
                out("   F " + ("" if b else "NOT ") + str(a))
        for e in self.eff:
            out("   E " + show_eff(e))


def show_eff(e):
    if e.kind == "persist":
        acc, t, v = e.a
        b = mk("data", acc, t)
        if v.op == "agg":
            ix = tm._FIELDIDX.get((v.a[0], v.a[1]), {})
            ch = [f"{n}={v.a[2+i]}" for n, i in ix.items() if v.a[2 + i] is not tm.proj(b, n)]
            return f"persist {acc}:{tm.short(t)} " + "; ".join(ch)
        return f"persist {acc}:{tm.short(t)} " + ("(unchanged)" if v is b else str(v))
    return repr(e)


def tmatch(t, name):
    """full type string against a (possibly short) type name; generics must match when given"""
    if t == name:
        return True
    base = t.split("<", 1)[0]
    if base == name or base.endswith("::" + name):
        return True
    return False


def run_fn(crate, key, args, st=None, name=None, ip=None):
    p = prog(crate)
    ip = ip or absint.Interp(p, models.M)
    st = st or absint.State()
    rs = ip.run(key, args, st)
    return ip, [Path(ip, name or key, v, s, i) for i, (v, s) in enumerate(rs)]


def is_err(v):
    return v.op == "agg" and v.a[0] == "core::result::Result" and v.a[1] == "Err"


class Summary:
    def __init__(self, crate, name, ip, paths):
        self.crate, self.name, self.ip, self.paths = crate, name, ip, paths


def summary(crate, root):
    k = (crate, root)
    if k not in _sums:
        key = f"{crate}::__private::__global::{root}"
        ip, ps = run_fn(crate, key, [ident(crate), mk("accs", I(0)), mk("ixdata")], name=f"{crate}::{root}")
        _sums[k] = Summary(crate, root, ip, [p for p in ps if not is_err(p.ret)])
    return _sums[k]


def summary_with(crate, root, tag, rewrite):
    """the summary under a case assumption: `rewrite` maps symbolic inputs to their form in this case"""
    k = (crate, root, tag)
    if k not in _sums:
        key = f"{crate}::__private::__global::{root}"
        ip = absint.Interp(prog(crate), models.M)
        ip.rewrite = rewrite
        ip, ps = run_fn(crate, key, [ident(crate), mk("accs", I(0)), mk("ixdata")], name=f"{crate}::{root}[{tag}]", ip=ip)
        _sums[k] = Summary(crate, root, ip, [p for p in ps if not is_err(p.ret)])
    return _sums[k]


def all_summaries(crates):
    for c in crates:
        for r in roots(c):
            yield summary(c, r)


if __name__ == "__main__":
    set_dump(os.environ.get("NTT_BUILD", "/verif/build") + "/dump")
    c = {"m": "example_native_token_transfers", "t": "ntt_transceiver", "q": "ntt_quoter", "g": "wormhole_governance"}.get(sys.argv[1], sys.argv[1])
    for r in roots(c):
        if sys.argv[2] in (r, "all"):
            s = summary(c, r)
            print("==", r, len(s.paths))
            for p in s.paths[:int(sys.argv[3]) if len(sys.argv) > 3 else 10]:
                p.show()
