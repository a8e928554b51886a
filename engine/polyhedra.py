"""Relational numeric domain: the linear inequalities known on a path form a convex polyhedron;
entailment by elimination of variables (Fourier-Motzkin with integer tightening).

Products are expanded to monomials and quotients by a constant are related to their dividend, so
two spellings of the same arithmetic meet.  The domain only ever answers "entailed", "refuted" or
"don't know"; when a polyhedron grows past the limits the answer is "don't know"."""
from math import gcd

import terms as tm
from terms import I, mk

MAXC, MAXV = 500, 40


def poly(t, memo=None):
    """(const, {monomial term: coef}) with products of sums expanded"""
    c, m = tm.lin(t)
    out = {}
    for x, k in m.items():
        for y, j in mono(x):
            if y is None:
                c += k * j
            else:
                out[y] = out.get(y, 0) + k * j
    return c, {x: k for x, k in out.items() if k}


_memo = {}
_orig = {}


def mono(x):
    r = _memo.get(x)
    if r is not None:
        return r
    if x.op == "mul":
        acc = {(): 1}
        for f in x.a:
            c, m = poly(f)
            terms = [((), c)] if c else []
            terms += [((tuple(y.a) if y.op == "mul" else (y,)), k) for y, k in m.items()]
            new = {}
            for a, k in acc.items():
                for b, j in terms:
                    key = tuple(sorted(a + b, key=lambda t: t.id))
                    new[key] = new.get(key, 0) + k * j
            acc = new
        r = []
        for key, k in acc.items():
            if k:
                r.append((None if not key else key[0] if len(key) == 1 else mk("mul", *key), k))
    elif x.op in ("div", "rem"):
        c, m = poly(x.a[0])
        a = tm.mklin(c, m)
        c, m = poly(x.a[1])
        b = tm.mklin(c, m)
        r = [(tm.div(a, b) if x.op == "div" else tm.rem(a, b), 1)]
        if r[0][0] is not x:
            _orig.setdefault(r[0][0], []).append(x)
        if r[0][0].op == "int":
            r = [(None, r[0][0].a[0])] if r[0][0].a[0] else []
        elif r[0][0].op == "lin":
            c, m = tm.lin(r[0][0])
            r = list(m.items()) + ([(None, c)] if c else [])
    else:
        r = [(x, 1)]
    _memo[x] = r
    return r


def norm(c, m):
    """sum(m) + c <= 0 tightened to integers; None when trivially true, False when false"""
    if not m:
        return None if c <= 0 else False
    g = 0
    for v in m.values():
        g = gcd(g, abs(v))
    if g > 1:
        m = {x: v // g for x, v in m.items()}
        c = -((-c) // g)
    return c, m


class Poly:
    def __init__(self, rng):
        self.cons = []          # (c, {atom: k}): sum + c <= 0
        self.ne = []            # (c, {atom: k}): sum + c != 0
        self.rng = rng

    def add_le(self, t, k):
        """t <= k"""
        c, m = poly(t)
        self.cons.append((c - k, m))

    def add_ne(self, t):
        self.ne.append(poly(t))

    def component(self, atoms):
        """constraints connected to these atoms, with the axioms of the atoms"""
        seen, todo, cons, used = set(), list(atoms), [], set()
        ix = {}
        for i, (c, m) in enumerate(self.cons):
            for x in m:
                ix.setdefault(x, []).append(i)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > MAXV:
                return None, None
            for i in ix.get(x, ()):
                if i not in used:
                    used.add(i)
                    cons.append(self.cons[i])
                    todo += [y for y in self.cons[i][1] if y not in seen]
            for c, m in self.axioms(x):
                cons.append((c, m))
                todo += [y for y in m if y not in seen]
        ne = [n for n in self.ne if all(x in seen for x in n[1])]
        return cons, ne

    def axioms(self, x):
        lo, hi = self.rng(x)
        out = []
        if lo is not None:
            out.append((lo, {x: -1}))
        if hi is not None:
            out.append((-hi, {x: 1}))
        if x.op == "div" and x.a[1].op == "int" and x.a[1].a[0] > 0:
            k = x.a[1].a[0]
            c, m = poly(x.a[0])
            if self.nonneg(x):
                # k*q <= a <= k*q + k-1
                m1 = {y: -v for y, v in m.items()}
                m1[x] = m1.get(x, 0) + k
                out.append((-c, m1))
                m2 = dict(m)
                m2[x] = m2.get(x, 0) - k
                out.append((c - (k - 1), m2))
                out.append((0, {x: -1}))
        elif x.op == "div":
            c, m = poly(x.a[0])
            if self.nonneg(x) and self.lower(x.a[1], 0):
                out.append((0, {x: -1}))
                m1 = {y: -v for y, v in m.items()}
                m1[x] = m1.get(x, 0) + 1
                out.append((-c, m1))
        elif x.op == "mul":
            if all(self.lower(f, 0) for f in x.a):
                out.append((0, {x: -1}))
        elif x.op == "pow" and self.lower(x.a[0], 1):
            out.append((1, {x: -1}))
        elif x.op == "rem" and self.nonneg(x):
            out.append((0, {x: -1}))
            if x.a[1].op == "int" and x.a[1].a[0] > 0:
                k = x.a[1].a[0]
                out.append((1 - k, {x: 1}))
                q = mk("div", x.a[0], x.a[1])
                c, m = poly(x.a[0])
                for s in (1, -1):       # a - k*q - r == 0
                    m1 = {y: s * v for y, v in m.items()}
                    m1[q] = m1.get(q, 0) - s * k
                    m1[x] = m1.get(x, 0) - s
                    out.append((s * c, m1))
        return out

    def nonneg(self, x):
        """the dividend of x is not negative, in any of the spellings it came in"""
        return any(self.lower(y.a[0], 0) for y in [x] + _orig.get(x, []))

    def lower(self, t, k):
        return self._lower(t, k, tm.lin) or self._lower(t, k, poly)

    def _lower(self, t, k, form):
        """t >= k, cheaply"""
        c, m = form(t)
        lo = c
        for x, v in m.items():
            l, h = self.rng(x)
            if l is None and v > 0 and x.op in ("mul", "div") and all(self.lower(f, 0) for f in x.a):
                l = 0
            if l is None and v > 0 and x.op == "pow":
                l = 1
            b = l if v > 0 else h
            if b is None:
                lo = None
                break
            lo += v * b
        if lo is not None and lo >= k:
            return True
        # a recorded inequality of just this form
        want = {x: -v for x, v in m.items()}
        for c2, m2 in self.cons:
            if m2 == want and c2 + c >= k:      # sum(m2) + c2 <= 0  ->  sum(m) >= c2
                return True
        return False

    def entails(self, c, m):
        """sum(m) + c <= 0 on the whole polyhedron"""
        cons, ne = self.component(m)
        if cons is None:
            return False
        # negation: sum(m) + c >= 1
        neg = (1 - c, {x: -v for x, v in m.items()})
        return not feasible(cons + [neg], ne)

    def empty(self):
        atoms = []
        for c, m in self.cons:
            atoms += m
        # component by component
        done = set()
        for x in atoms:
            if x in done:
                continue
            cons, ne = self.component([x])
            done.add(x)
            if cons is None:
                continue
            for c, m in cons:
                done |= set(m)
            if not feasible(cons, ne):
                return True
        return False


def feasible(cons, ne, depth=0):
    """False only when no integer point satisfies all"""
    if not fm(cons):
        return False
    if ne and depth < 4:
        for i, (c, m) in enumerate(ne):
            if not m:
                if c == 0:
                    return False
                continue
            rest = ne[:i] + ne[i + 1:]
            a = not fm(cons + [(c + 1, m)])                                 # sum + c <= -1
            b = not fm(cons + [(1 - c, {x: -v for x, v in m.items()})])     # sum + c >= 1
            if a and b:
                return False
            if a:
                return feasible(cons + [(1 - c, {x: -v for x, v in m.items()})], rest, depth)
            if b:
                return feasible(cons + [(c + 1, m)], rest, depth)
        c, m = ne[0]
        if m:
            return feasible(cons + [(c + 1, m)], ne[1:], depth + 1) or feasible(cons + [(1 - c, {x: -v for x, v in m.items()})], ne[1:], depth + 1)
    return True


def fm(cons):
    cur = {}

    def put(c, m):
        r = norm(c, m)
        if r is None:
            return True
        if r is False:
            return False
        c, m = r
        k = frozenset(m.items())
        if k not in cur or cur[k] < c:
            cur[k] = c
        o = frozenset((x, -v) for x, v in m.items())
        if o in cur and cur[o] + c > 0:
            return False
        return True
    for c, m in cons:
        if not put(c, {x: v for x, v in m.items() if v}):
            return False
    while cur:
        pos, neg = {}, {}
        for k in cur:
            for x, v in k:
                d = pos if v > 0 else neg
                d[x] = d.get(x, 0) + 1
        xs = set(pos) | set(neg)
        best = min(xs, key=lambda x: (pos.get(x, 0) * neg.get(x, 0) - pos.get(x, 0) - neg.get(x, 0), x.id))
        ups, los, rest = [], [], {}
        for k, c in cur.items():
            v = dict(k).get(best)
            if v is None:
                rest[k] = c
            elif v > 0:
                ups.append((c, dict(k)))
            else:
                los.append((c, dict(k)))
        if len(rest) + len(ups) * len(los) > MAXC:
            return True
        cur = rest
        for c1, m1 in ups:
            for c2, m2 in los:
                a, b = m1[best], -m2[best]
                m = {}
                for x, v in m1.items():
                    m[x] = m.get(x, 0) + v * b
                for x, v in m2.items():
                    m[x] = m.get(x, 0) + v * a
                if not put(c1 * b + c2 * a, {x: v for x, v in m.items() if v}):
                    return False
    return True
