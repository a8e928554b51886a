"""Hash-consed value-provenance terms: the abstract domain of the analysis.

A term says where a value comes from (a constant, a field of an account's data,
an instruction argument, the result of an operation), never what it is at run
time.  Integer arithmetic is kept in a linear normal form so that algebraically
equal spellings get the same term (value numbering)."""


class T:
    __slots__ = ("op", "a", "id", "_hr", "_sz")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        t._hr = op == "ref" or any(isinstance(x, T) and x._hr for x in a)
        t._sz = 1 + sum(x._sz for x in a if isinstance(x, T))
        _tab[k] = t
    return t


def has_ref(t):
    return t._hr


# ---- literals ---------------------------------------------------------------
def I(n):
    return mk("int", int(n))


def B(b):
    return mk("bool", bool(b))


def S(s):
    return mk("str", s)


def X(b):
    return mk("bytes", bytes(b))


TRUE, FALSE = B(True), B(False)
UNIT = mk("agg", "tuple", "")


def is_int(t):
    return t.op == "int"


def agg(ty, variant, *fields):
    if ty == "array" and fields and variant == "u8" and all(f.op == "int" for f in fields):
        return X(bytes(f.a[0] & 255 for f in fields))
    if ty == "array" and variant == "u8" and any(f.op == "shr" for f in fields):
        fields = spelled(fields)
    if ty == "array" and fields and whole(fields) == len(fields):
        return fields[0].a[0]
    if ty not in _ADTS and ty not in ("array", "tuple"):
        # eta: a struct rebuilt from all the fields of x is x (a struct without fields has just one value)
        fs = [f for f in fields if f.op == "fld"]
        ix = _FIELDIDX.get((ty, variant)) if fs else None
        if ix and len(ix) == len(fields):
            x = fs[0].a[0]
            if x.op != "agg" and all(f.op == "fld" and f.a[0] is x and f.a[1] == n or f.op == "agg" and len(f.a) == 2 and f.a[0] not in _ADTS and f.a[0] not in ("array", "tuple")
                                     for n, f in ((n, fields[i]) for n, i in ix.items())):
                return x
    return mk("agg", ty, variant, *fields)


def octet(f):
    """(number, how far it is shifted down, whether higher digits were cut off) of one byte of a number"""
    cut = f.op == "trunc" and f.a[1] == "u8"
    x = f.a[0] if cut else f
    if x.op == "shr" and x.a[1].op == "int" and x.a[1].a[0] % 8 == 0:
        return x.a[0], x.a[1].a[0] // 8, cut
    return (x, 0, cut) if cut else None


def spelled(fs):
    """bytes of a number given by shifts, as bytes of its encoding; that the top byte, shifted down, is a byte shows the number's width"""
    fs = list(fs)
    for i, f in enumerate(fs):
        o = octet(f)
        if o is None or o[2]:
            continue
        v, k, _ = o
        for e, js in (("be", range(i, i + k + 1)), ("le", range(i, i - k - 1, -1))):
            if 0 <= min(js) and max(js) < len(fs) and all(octet(fs[j]) == (v, k - d, d > 0) for d, j in enumerate(js)):
                b = mk("tob", v, e, k + 1)
                for d, j in enumerate(js):
                    fs[j] = mk("idx", b, I(d if e == "be" else k - d))
                break
    return tuple(fs)


def whole(fs):
    """how many leading elements are the bytes, all and in order, of one number's encoding"""
    x = fs[0]
    if x.op != "idx" or x.a[0].op != "tob":
        return 0
    b, n = x.a[0], x.a[0].a[2]
    return n if len(fs) >= n and all(f.op == "idx" and f.a[0] is b and f.a[1] == I(i) for i, f in enumerate(fs[:n])) else 0


def fields(t):
    """fields of an aggregate"""
    return t.a[2:]


def sym(name, *a):
    return mk("sym", name, *a)


def call(name, *a):
    return mk("call", name, *a)


def tup(*a):
    return mk("agg", "tuple", "", *a)


def some(x):
    return mk("agg", "core::option::Option", "Some", x)


NONE = mk("agg", "core::option::Option", "None")


def ok(x):
    return mk("agg", "core::result::Result", "Ok", x)


def err(x):
    return mk("agg", "core::result::Result", "Err", x)


def fld(base, name):
    return mk("fld", base, name)


# ---- linear arithmetic ------------------------------------------------------
def lin(t):
    """(const, {atom: coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def bit_of(c):
    """(word, index) when the condition tests a bit, given as a number, of a word"""
    neg = c.op == "not"
    if neg:
        c = c.a[0]
    if c.op == "and" and not neg:
        x, y = bit_of(c.a[0]), bit_of(c.a[1])
        return (comm("band", x[0], y[0]), x[1]) if x and y and x[1] == y[1] else None
    if c.op == "bit" and not neg and c.a[1].op == "int":
        return c.a[0], c.a[1].a[0]
    if c.op != "eq":
        return None
    ks = [x for x in c.a if x.op == "int"]
    ws = [x for x in c.a if x.op == "band"]
    if len(ks) != 1 or len(ws) != 1:
        return None
    ms = [x for x in ws[0].a if x.op == "int"]
    xs = [x for x in ws[0].a if x.op != "int"]
    if len(ms) != 1 or len(xs) != 1:
        return None
    k, m, x = ks[0].a[0], ms[0].a[0], xs[0]
    if m <= 0 or m & (m - 1) or k not in (0, m) or (k == 0) != neg:
        return None
    i = m.bit_length() - 1
    if x.op == "shr" and x.a[1].op == "int":
        return x.a[0], i + x.a[1].a[0]
    return x, i


def as_bit(x):
    """a word's last bit as the number of a condition"""
    y = x.a[0] if x.op == "trunc" else x
    if y.op == "band" and I(1) in y.a:
        return mk("b2i", b_not(eq(I(0), y)))
    return x


def tally(conds):
    """how many of the conditions hold"""
    r = I(0)
    for c in conds:
        r = add(r, mk("b2i", c) if c.op != "bool" else I(int(c.a[0])))
    return r


def all_bits(m):
    """the word all of whose 128 bits are added up, if that is what is added up"""
    bits = [bit_of(x.a[0]) for x in m if x.op == "b2i"]
    if len(bits) == 128 and all(bits) and len({x for x, _ in bits}) == 1 and sorted(i for _, i in bits) == list(range(128)):
        return bits[0][0]
    return None


def mklin(c, m):
    m = {k: v for k, v in m.items() if v}
    if len(m) == 128 and all(v == 1 for v in m.values()):
        w = all_bits(m)         # testing each bit of a word is counting its bits
        if w is not None:
            m = {mk("popcount", w): 1}
    if not m:
        return I(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1:
            return k
    if c == 0 and 256 in m.values():
        r = joined(m)
        if r is not None:
            return r
    items = tuple(sorted(m.items(), key=lambda kv: kv[0].id))
    # nested terms inside tuples: keep as a flat arg too, so traversal sees them
    return mk("lin", c, items, *[k for k, _ in items])


def joined(m):
    """consecutive bytes weighted by powers of 256 are one integer read from those bytes"""
    ps = []
    for x, k in m.items():
        if x.op == "idx" and x.a[1].op == "int":
            ps.append((k, x.a[0], x.a[1].a[0], 1, None))
        elif x.op == "from" and x.a[0].op == "slice" and x.a[0].a[1].op == "int":
            ps.append((k, x.a[0].a[0], x.a[0].a[1].a[0], x.a[2], x.a[1] if x.a[2] > 1 else None))
        else:
            return None
    ps.sort(key=lambda q: q[0])
    w, n = 1, 0
    for k, _, _, sz, _ in ps:
        if k != w:
            return None
        w <<= 8 * sz
        n += sz
    if len({q[1] for q in ps}) != 1 or n not in (2, 4, 8, 16) and n > 16:
        return None
    up = all(a[2] + a[3] == b[2] for a, b in zip(ps, ps[1:]))
    down = all(b[2] + b[3] == a[2] for a, b in zip(ps, ps[1:]))
    e = "le" if up else "be" if down else None
    if e is None or any(q[4] not in (None, e) for q in ps):
        return None
    lo = min(q[2] for q in ps)
    b = ps[0][1]
    if b.op == "tob" and lo == 0 and b.a[1:] == (e, n):
        return b.a[0]
    return mk("from", mk("slice", ps[0][1], I(lo), I(lo + n)), e, n)


def add(a, b):
    c1, m1 = lin(a)
    c2, m2 = lin(b)
    for k, v in m2.items():
        m1[k] = m1.get(k, 0) + v
    return mklin(c1 + c2, m1)


def neg(a):
    c, m = lin(a)
    return mklin(-c, {k: -v for k, v in m.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_int(b):
        a, b = b, a
    if is_int(a):
        k = a.a[0]
        c, m = lin(b)
        return mklin(c * k, {x: v * k for x, v in m.items()})
    fs = []
    for t in (a, b):
        fs += list(t.a) if t.op == "mul" else [t]
    return mk("mul", *sorted(fs, key=lambda t: t.id))


def div(a, b):
    if is_int(a) and a.a[0] == 0:
        return a
    if is_int(a) and is_int(b) and b.a[0]:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] >= 0) == (b.a[0] >= 0) else -q)
    if b == I(1):
        return a
    return mk("div", a, b)


def rem(a, b):
    if is_int(a) and is_int(b) and b.a[0] > 0 and a.a[0] >= 0:
        return I(a.a[0] % b.a[0])
    return mk("rem", a, b)


def comm(op, a, b):
    if a.op == b.op == "int":
        f = {"band": lambda x, y: x & y, "bor": lambda x, y: x | y, "bxor": lambda x, y: x ^ y}[op]
        return I(f(a.a[0], b.a[0]))
    if op == "bor":
        for x, y in ((a, b), (b, a)):
            if y.op == "shl" and y.a[0] == I(1):
                return setbit(x, y.a[1], TRUE)
    if op == "band":
        for x, y in ((a, b), (b, a)):
            if y.op == "bnot" and y.a[0].op == "shl" and y.a[0].a[0] == I(1):
                return setbit(x, y.a[0].a[1], FALSE)
    fs = []
    for t in (a, b):
        fs += list(t.a) if t.op == op else [t]
    return mk(op, *sorted(set(fs) if op != "bxor" else fs, key=lambda t: t.id))


def bit(m, i):
    while m.op == "setbit":
        if m.a[1] is i:
            return m.a[2]
        if not (m.a[1].op == "int" and i.op == "int"):
            break
        m = m.a[0]
    if m.op == "int" and i.op == "int":
        return B(m.a[0] >> i.a[0] & 1)
    if m == I(0):
        return FALSE
    return mk("bit", m, i)


def setbit(m, i, v):
    if m.op == "int" and i.op == "int" and v.op == "bool":
        return I(m.a[0] | 1 << i.a[0] if v.a[0] else m.a[0] & ~(1 << i.a[0]))
    return mk("setbit", m, i, v)


# ---- byte strings -----------------------------------------------------------
def pieces(p):
    """an array of bytes, split where it spells out a number's encoding"""
    if p.op != "agg" or p.a[0] != "array" or not any(f.op == "idx" and f.a[0].op == "tob" for f in fields(p)):
        return (p,)
    out, run, fs = [], [], list(fields(p))
    while fs:
        n = whole(fs)
        if n:
            if run:
                out.append(agg("array", p.a[1], *run))
            out.append(fs[0].a[0])
            run, fs = [], fs[n:]
        else:
            run.append(fs.pop(0))
    if run:
        out.append(agg("array", p.a[1], *run))
    return tuple(out)


def cat(*parts):
    out = []
    for p in parts:
        for x in (p.a if p.op == "cat" else pieces(p)):
            if x.op == "agg" and x.a[0] == "array" and len(x.a) == 2:
                continue
            if x.op == "bytes" and not x.a[0]:
                continue
            if out and out[-1].op == x.op == "bytes":
                out[-1] = X(out[-1].a[0] + x.a[0])
            elif out and out[-1].op == x.op == "agg" and x.a[0] == out[-1].a[0] == "array":
                out[-1] = agg("array", x.a[1], *fields(out[-1]), *fields(x))
            else:
                out.append(x)
    if not out:
        return mk("bytes", b"")
    return out[0] if len(out) == 1 else mk("cat", *out)


# ---- boolean atoms ----------------------------------------------------------
def b_not(t):
    if t.op == "bool":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def b_and(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return mk("and", a, b)


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


LIT = ("int", "bool", "str", "bytes")


def ground(t):
    return t.op in LIT or (t.op == "agg" and all(ground(f) for f in fields(t)))


def eq(a, b, num=False):
    """equality of two values; num: integers (linear normal form applies)"""
    if a is b:
        return TRUE
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        num = True
    if num:
        c, m = lin(sub(a, b))
        if not m:
            return B(c == 0)
        lead = min(m, key=lambda k: k.id)
        if m[lead] < 0:
            c, m = -c, {k: -v for k, v in m.items()}
        # discr(x) == k  <=>  x is variant k
        if len(m) == 1 and lead.op == "discr" and m[lead] == 1:
            return isv_discr(lead, -c)
        if len(m) == 1 and m[lead] == 1 and lead.op == "b2i" and c in (0, -1):
            return lead.a[0] if c == -1 else b_not(lead.a[0])
        if len(m) == 1 and m[lead] == 1 and lead.op == "popcount" and c == 0:     # no bit set
            return eq(lead.a[0], I(0), True)
        if len(m) == 1 and m[lead] == 1 and lead.op == "band" and len(lead.a) == 2:
            for x, y in (lead.a, lead.a[::-1]):
                if y == I(1) and x.op == "shr" and c in (0, -1):
                    return b_not(bit(*x.a)) if c == 0 else bit(*x.a)
                if y.op == "shl" and y.a[0] == I(1) and c == 0:
                    return b_not(bit(x, y.a[1]))
        pos = mklin(0, {k: v for k, v in m.items() if v > 0})
        rhs = mklin(-c, {k: -v for k, v in m.items() if v < 0})
        a, b = pos, rhs
    else:
        if a.op in LIT and b.op in LIT:
            return B(a is b)
        if a.op == b.op == "agg" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(fields(a), fields(b)):
                r = b_and(r, eq(x, y))
            return r
        for x, y in ((a, b), (b, a)):       # a variant without contents
            if x.op == "agg" and len(x.a) == 2 and y.op != "agg" and x.a[0] in _ADTS and any(n == x.a[1] for n, _ in _ADTS[x.a[0]]):
                return isv(y, x.a[0], x.a[1])
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def le0(t, unsigned=()):
    """t <= 0 in canonical form"""
    c, m = lin(t)
    if not m:
        return B(c <= 0)
    if len(m) == 1:
        (k, v), = m.items()
        if v in (1, -1) and k.op == "discr" and k.a[0].op == "cmp3":
            # an ordering as a number, which is -1, 0 or 1
            a, b, u = k.a[0].a
            ok = [n for n in (-1, 0, 1) if v * n + c <= 0]
            u = u == "u"
            return {(): FALSE, (-1,): lt(a, b, u), (1,): lt(b, a, u), (-1, 0): le(a, b, u), (0, 1): le(b, a, u), (-1, 0, 1): TRUE}[tuple(ok)]
    lead = min(m, key=lambda k: k.id)
    if m[lead] > 0:
        # L <= -c
        L = mklin(0, m)
        if L in unsigned and -c == 0:
            return eq(L, I(0), True)
        if L in unsigned and -c < 0:
            return FALSE
        return mk("le", L, -c)
    # -L' + c <= 0  <=>  L' >= c  <=> not (L' <= c-1)
    L = mklin(0, {k: -v for k, v in m.items()})
    if L in unsigned and c - 1 == 0:
        return b_not(eq(L, I(0), True))
    if L in unsigned and c - 1 < 0:
        return TRUE
    return b_not(mk("le", L, c - 1))


def lt(a, b, unsigned=False):
    # a - b + 1 <= 0
    return le0(add(sub(a, b), I(1)), (a, b) if unsigned else ())


def le(a, b, unsigned=False):
    return le0(sub(a, b), (a, b) if unsigned else ())


def discr(x, adt):
    return mk("discr", x, adt)


def isv(x, adt, vname):
    if x.op == "agg":
        return B(x.a[1] == vname)
    if x.op == "cmp3":
        a, b, u = x.a
        u = u == "u"
        return {"Less": lambda: lt(a, b, u), "Equal": lambda: eq(a, b, True), "Greater": lambda: lt(b, a, u)}[vname]()
    if x.op == "zeroed":
        vs = _ADTS.get(adt)
        if vs:
            return B(vs[0][0] == vname)
    return mk("isv", x, adt, vname)


_ADTS = {}        # adt path -> list of (variant name, discr)


def isv_discr(d, k):
    x, adt = d.a
    for n, v in _ADTS.get(adt, ()):
        if v == k:
            return isv(x, adt, n)
    return FALSE if adt in _ADTS else mk("eq", d, I(k))


# ---- traversal --------------------------------------------------------------
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(y for y in x.a if isinstance(y, T))
    return seen


_mapcache = {}


def rebuild(t, kids):
    """same operator over new children (normalising where the operator does)"""
    if t.op == "lin":
        r = I(t.a[0])
        for k, (_, v) in zip(kids, t.a[1]):
            r = add(r, mul(I(v), k))
        return r
    it = iter(kids)
    a = [next(it) if isinstance(x, T) else x for x in t.a]
    if t.op == "pow" and a[0].op == a[1].op == "int" and 0 <= a[1].a[0] < 400:
        return I(a[0].a[0] ** a[1].a[0])
    if t.op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    if t.op == "div":
        return div(*a)
    if t.op == "tob" and a[0].op == "int" and a[0].a[0] >= 0:
        return X(a[0].a[0].to_bytes(a[2], "little" if a[1] == "le" else "big"))
    if t.op == "cat":
        return cat(*[X(bytes(f.a[0] for f in fields(x))) if x.op == "agg" and x.a[0] == "array" and all(f.op == "int" and 0 <= f.a[0] < 256 for f in fields(x)) else x
                     for x in a])
    if t.op == "eq":
        return eq(*a)
    if t.op == "not":
        return b_not(a[0])
    if t.op == "and":
        return b_and(*a)
    if t.op == "fld":
        return proj(a[0], a[1])
    if t.op == "agg":
        return agg(*a)
    if t.op == "isv":
        return isv(*a)
    if t.op == "le":
        return le0(sub(a[0], I(a[1])))
    return mk(t.op, *a)


def subst(t, f, memo=None):
    """bottom-up rewrite: f(term) -> term or None"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        kids = [x for x in t.a if isinstance(x, T)]
        nk = [subst(k, f, memo) for k in kids]
        r = t if all(x is y for x, y in zip(kids, nk)) else rebuild(t, nk)
    memo[t] = r
    return r


_FIELDIDX = {}     # (adt, variant) -> {field name: index}


def proj(v, name):
    """named field of a value"""
    if v.op == "agg":
        ix = _FIELDIDX.get((v.a[0], v.a[1]))
        if ix is not None:
            if name in ix:
                return v.a[2 + ix[name]]
        elif name.isdigit() and int(name) < len(v.a) - 2:
            return v.a[2 + int(name)]
    return mk("fld", v, name)


def vproj(v, variant, name):
    if v.op == "agg":
        if v.a[1] == variant:
            ix = _FIELDIDX.get((v.a[0], v.a[1]))
            i = ix.get(name) if ix else int(name)
            if i is not None and 2 + i < len(v.a):
                return v.a[2 + i]
        return mk("bottom")
    return mk("vfld", v, variant, name)


# ---- printing ---------------------------------------------------------------
def short(n):
    n = str(n)
    if "<" in n:
        return n if len(n) < 60 else n[:28] + ".." + n[-30:]
    return n.rsplit("::", 1)[-1]


def show(t, d=7):
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "bool":
        return str(a[0]).lower()
    if o == "str":
        return repr(a[0])
    if o == "bytes":
        s = a[0]
        return repr(s) if len(s) <= 12 and all(32 <= c < 127 for c in s) else "x" + s[:6].hex() + (".." if len(s) > 6 else "")
    if d <= 0:
        return "…"
    r = lambda x: show(x, d - 1)
    if o == "fld":
        return f"{r(a[0])}.{a[1]}"
    if o == "vfld":
        return f"{r(a[0])}.{a[1]}#{a[2]}"
    if o == "agg":
        n = short(a[0])
        if a[1] and a[0] not in ("array",):
            n = a[1] if a[1] in ("Ok", "Err", "Some", "None") else n if n == a[1] else f"{n}::{a[1]}"
        fs = fields(t)
        ix = _FIELDIDX.get((a[0], a[1]))
        if ix and fs and not next(iter(ix)).isdigit():
            return n + "{" + ", ".join(f"{k}: {r(fs[i])}" for k, i in ix.items() if i < len(fs)) + "}"
        return n + "(" + ", ".join(map(r, fs)) + ")"
    if o == "lin":
        s = []
        for k, v in a[1]:
            s.append(("" if v == 1 else "-" if v == -1 else f"{v}*") + r(k))
        if a[0]:
            s.append(str(a[0]))
        return "(" + " + ".join(s).replace("+ -", "- ") + ")"
    if o == "eq":
        return f"{r(a[0])} == {r(a[1])}"
    if o == "le":
        return f"{r(a[0])} <= {a[1]}"
    if o == "not":
        return f"!({r(a[0])})"
    if o == "and":
        return f"({r(a[0])} && {r(a[1])})"
    if o == "isv":
        return f"{r(a[0])} is {a[2]}"
    if o == "discr":
        return f"discr({r(a[0])})"
    if o in ("sym", "call"):
        xs = [r(x) for x in a[1:]]
        return short(a[0]) + (("(" + ", ".join(xs) + ")") if xs or o == "call" else "")
    if o == "data":
        return f"data({r(a[0])}:{short(a[1])}" + (f"@{a[2]}" if len(a) > 2 and a[2] else "") + ")"
    return o + "(" + ", ".join(r(x) if isinstance(x, T) else short(x) for x in a) + ")"
