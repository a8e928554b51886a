"""Vocabulary of the rules: obligations over the paths of the instruction summaries."""
import re
import terms as tm
from terms import T, I, B, X, S, mk, agg, fld, eq, le, lt, b_not, b_and, b_or, isv, cat, add, sub, mul, div
import models
import summ
from summ import tmatch

MGR, TRX, QTR, GOV = "example_native_token_transfers", "ntt_transceiver", "ntt_quoter", "wormhole_governance"
PROGRAMS = (MGR, TRX, QTR, GOV)
DAY = I(86400)
U64 = (1 << 64) - 1
now = fld(mk("sysvar", "solana_program::clock::Clock"), "unix_timestamp")   # replaced by find_now()


class Broken(Exception):
    """an anchor the rule needs is not there: reported as a violation"""

    def __init__(self, rule, where, msg):
        super().__init__(msg)
        self.rule, self.where, self.msg = rule, where, msg


TOUCHED = set()         # the record types whose contents a rule looked at


def stored_as_declared(rep):
    """what a rule reads from or leaves in a record is what the account holds: the encodings of the record
    and of everything inside it are derived, and write every field (contents are modelled as the fields)"""
    todo, seen = sorted(TOUCHED), set()
    while todo:
        n = todo.pop()
        crate = n.split("::")[0]
        if n in seen or crate not in PROGRAMS + ("ntt_messages",):
            continue
        seen.add(n)
        p = summ.prog(crate)
        a = p.adts.get(n)
        if a is None:
            continue
        ts = [t for v in a["v"] for _, t in v["f"]]
        while ts:
            d = p.tk(ts.pop())
            if d["k"] == "adt":
                todo.append(d["d"])
                ts += d["a"]
            elif d["k"] == "array":
                ts.append(d["t"])
        nf = sum(len(v["f"]) for v in a["v"])
        for k in p.raw:
            m = re.match(r"<([\w:]+)(<.*>)? as (?:borsh::(ser|de)|anchor_lang)::(?:Borsh|Account)(?:Serialize|Deserialize)>::(\w+)(#poly)?$", k)
            if not m or m.group(1) != n:
                continue
            if not p.derived_impl(k):
                wire = any(q.startswith(f"<{n}") and "Readable>::read" in q for q in p.raw)      # a wire format: C20
                rep.ob("stored-as-declared", n, wire, f"{m.group(4)} of {n} is written by hand; what is stored may not be what is read back")
                continue
            if m.group(3) == "ser" and m.group(4) == "serialize" or m.group(3) == "de" and a["kind"] == "struct" and m.group(4) == "deserialize_reader":
                f = "borsh::ser::BorshSerialize::serialize" if m.group(3) == "ser" else "borsh::de::BorshDeserialize::deserialize_reader"
                c = sum(1 for b in p.raw[k]["bb"] if b[1][0] == "call" and isinstance(b[1][1], dict) and b[1][1].get("d") == f)
                rep.ob("stored-as-declared", n, c == nf, f"{m.group(4)} of {n} passes over {nf - c} of its {nf} fields")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.nobs = 0
        self.per = {}
        self.viol = {}
        self.analysed = {}
        self.samples = []
        self.steps = self.forks = self.calls = self.widened = 0
        self.fns = set()

    def ob(self, rule, where, ok, msg="", path=None, eff=None):
        """one obligation: `ok` must be true of the construct `where`"""
        self.nobs += 1
        d = self.per.setdefault(rule, [0, 0])
        d[0] += 1
        if ok:
            d[1] += 1
            if len(self.samples) < 12 and d[1] == 1:
                self.samples.append({"rule": rule, "construct": where, "verdict": "discharged"})
            return True
        if isinstance(path, P) and path.p.empty():
            return True             # the facts of this path contradict each other: no execution takes it
        self.viol.setdefault(f"{rule} @ {where}", []).append((msg, path, eff))
        return False

    def merge(self, o):
        self.nobs += o.nobs
        for k, (a, b) in o.per.items():
            d = self.per.setdefault(k, [0, 0])
            d[0] += a
            d[1] += b
        for k, v in o.viol.items():
            self.viol.setdefault(k, []).extend(v)
        for k, v in o.analysed.items():
            self.analysed[k] = self.analysed.get(k, 0) + v
        self.samples = (self.samples + o.samples)[:12]
        self.steps += o.steps
        self.forks += o.forks
        self.calls += o.calls
        self.fns |= o.fns

    def need(self, rule, where, ok, msg=""):
        if not self.ob(rule, where, ok, msg):
            raise Broken(rule, where, msg)

    def floor(self, rule, n):
        got = self.per.get(rule, [0, 0])[0]
        if got < n:
            self.viol.setdefault(f"{rule} @ floor", []).append((f"rule matched {got} sites, at least {n} confirmed by hand", None, None))


# --------------------------------------------------------------- paths
def key(a):
    return fld(a, "key")


def signer(a):
    return fld(a, "is_signer")


def owner(a):
    return fld(a, "owner")


def arr(*xs):
    return mk("agg", "array", "[u8]", *xs)


def roots(crate):
    return summ.roots(crate)


def paths(rep, crate, root):
    rs = summ.roots(crate)
    if root not in rs:
        raise Broken("entry-point", f"{crate}::{root}", "entry point no longer exists")
    s = summ.summary(crate, root)
    k = f"{crate}::{root}"
    if k not in rep.analysed:
        rep.analysed[k] = len(s.paths)
        rep.steps += s.ip.steps
        rep.forks += s.ip.nforks
        rep.calls += s.ip.ncalls
        rep.fns |= s.ip.visited
    if not s.paths:
        raise Broken("success-path", k, "no successful path is left: the operation can never succeed")
    return [q for p in s.paths for q in split(P(p, crate, root))]


def split(p, n=0):
    """a path whose facts hold a disjunction, as the paths of its cases"""
    if n < 6:
        for f, v in p.p.facts.items():
            if not v and f.op == "and" and p.p.ip.decide(p.p.st, f.a[0]) is None and p.p.ip.decide(p.p.st, f.a[1]) is None:
                out = []
                for b in (False, True):
                    q = p.refine(f.a[0], b)
                    if q is not None and b:
                        q = q.refine(f.a[1], False)
                    if q is not None:
                        out += split(q, n + 1)
                return out
    return [p]


def all_paths(rep, *crates):
    for c in crates:
        for r in roots(c):
            if not summ.summary(c, r).paths:
                continue
            for p in paths(rep, c, r):
                yield p


class P:
    """a path with the vocabulary the rules use"""

    def __init__(self, p, crate, root):
        self.p, self.crate, self.root = p, crate, root
        self.where = f"{crate}::{root}"
        self.id = summ.ident(crate) if crate in PROGRAMS else None
        self.ty = {}
        self.tys = {}
        for f, v in p.facts.items():
            if v and f.op == "acct":
                self.ty.setdefault(f.a[0], f.a[1])
                self.tys.setdefault(f.a[0], []).append(f.a[1])
        for e in p.eff:
            if e.kind == "persist" and e.a[0] not in self.tys and p.created(e.a[0]):
                self.ty[e.a[0]] = e.a[1]
                self.tys[e.a[0]] = [e.a[1]]

    # basic
    def holds(self, t):
        return self.p.holds(t)

    def decide(self, t):
        return self.p.decide(t)

    def same(self, a, b):
        return self.p.same(a, b)

    def refine(self, t, val=True):
        st = self.p.st.copy()
        st.facts = dict(st.facts)
        if not self.p.ip.assume(st, t, val):
            return None
        q = summ.Path(self.p.ip, self.p.name, self.p.ret, st, self.p.n)
        return P(q, self.crate, self.root)

    def cases(self, t):
        """[(truth, path)]: the path itself when it decides t, else both refinements"""
        d = self.decide(t)
        if d is not None:
            return [(d, self)]
        out = []
        for v in (True, False):
            q = self.refine(t, v)
            if q is not None:
                out.append((v, q))
        return out

    # accounts
    def accts(self, tyname):
        return [a for a, ts in self.tys.items() if any(tmatch(t, tyname) for t in ts)]

    def one(self, tyname, rule="account"):
        a = self.accts(tyname)
        if len(a) != 1:
            raise Broken(rule, f"{self.where}/{tyname}", f"expected exactly one checked {tyname} account, found {len(a)}")
        return a[0]

    def fullty(self, acc, tyname):
        for t in self.tys.get(acc, ()):
            if tmatch(t, tyname):
                TOUCHED.add(t.split("<")[0])
                return t
        return None

    def pre(self, acc, tyname):
        """contents at the start of the instruction (zeroed when created in it)"""
        t = self.fullty(acc, tyname)
        if self.created(acc):
            return mk("zeroed", t)
        return mk("data", acc, t)

    def post(self, acc, tyname):
        """contents at the end of the instruction"""
        v = [e.a[2] for e in self.persists(tyname) if e.a[0] is acc]
        if v:
            return v[-1]
        return self.pre(acc, tyname)

    def written(self, acc, tyname):
        return any(e.a[0] is acc for e in self.persists(tyname))

    def created(self, acc):
        return bool(self.p.created(acc))

    def persists(self, tyname=None):
        r = self.p.persists(tyname)
        TOUCHED.update(e.a[1].split("<")[0] for e in r if isinstance(e.a[1], str))
        return r

    def effects(self, *k):
        return self.p.effects(*k)

    @property
    def eff(self):
        return self.p.eff

    def signed(self, acc):
        return self.holds(signer(acc))

    def pda(self, seeds, prog=None):
        return mk("pda", cat(*seeds), prog or self.id)

    def bump(self, seeds, prog=None):
        return mk("bump", cat(*seeds), prog or self.id)

    def is_pda(self, acc, seeds, prog=None):
        """the account's address is derived from these seeds (canonical or stored bump)"""
        prog = prog or self.id
        k, want = key(acc), cat(*seeds)
        if self.same(k, mk("pda", want, prog)):
            return True
        for f, v in self.p.facts.items():
            if v and f.op == "eq":
                for x, y in (f.a, f.a[::-1]):
                    if x.op == "pdab" and self.same(y, k) and self.same(x.a[1], prog) and self.same(x.a[0], want):
                        # the bump must be the one stored in this very account
                        b = x.a[2]
                        if b.op == "fld" and b.a[1] == "bump" and b.a[0].op == "data" and b.a[0].a[0] is acc:
                            return True
        return False

    def signs_for(self, seeds, acc):
        """these signer seeds let this program sign for acc"""
        if seeds is None or seeds.op != "agg":
            return False
        for s in seeds.a[2:]:
            if s.op == "agg" and self.same(models.mk_pda1(s, self.id), key(acc)):
                return True
        return False

    # messages
    def arg(self, i=0):
        for f in self.p.facts:
            for x in tm.subterms(f):
                if x.op == "ixarg" and x.a[0] == i:
                    return x
        for e in self.p.eff:
            for t in list(e.a) + list(e.kw.values()):
                if isinstance(t, T):
                    for x in tm.subterms(t):
                        if x.op == "ixarg" and x.a[0] == i:
                            return x
        return None

    def show(self):
        out = []
        self.p.show(out.append)
        return out


# --------------------------------------------------------------- terms of the protocol
def possible(p, *conds):
    """an accepting path that nothing excludes under the given conditions (terms, or (term, truth))"""
    q = p
    for c in conds:
        t, v = c if isinstance(c, tuple) else (c, True)
        d = q.decide(t)
        if d is (not v):
            return False
        if d is None:
            q = q.refine(t, v)
            if q is None:
                return False
    return True


def adt(name):
    c = [k for k in tm._ADTS if k == name or k.endswith("::" + name)]
    if len(c) != 1:
        raise Broken("type", name, f"type {name} not found exactly once ({c})")
    return c[0]


def F(v, *names):
    for n in names:
        v = tm.proj(v, n)
    return v


def var(v, enum, variant):
    return isv(v, adt(enum), variant)


def payload(v, variant, n="0"):
    return tm.vproj(v, variant, n)


def raw(acc, lo, hi):
    return mk("slice", mk("rawdata", acc), I(lo), I(hi))


def rawle(acc, lo, n):
    return mk("from", raw(acc, lo, lo + n), "le", n)


def be(t, n):
    if t.op == "int":
        return X(t.a[0].to_bytes(n, "big"))
    if n == 1:
        return agg("array", "u8", t)
    if t.op == "from" and t.a[1] == "be" and t.a[2] == n:
        return t.a[0]
    return mk("tob", t, "be", n)


def disc(name):
    import hashlib
    return X(hashlib.sha256(("account:" + name).encode()).digest()[:8])


def u8arr(t):
    return agg("array", "u8", t)


def pow10(t):
    return models.powt(I(10), t)


def item_status(p, v, variant):
    return p.decide(var(F(v, "release_status"), "inbox::ReleaseStatus", variant))


TOKEN_OPS = ("mint_to", "transfer", "burn")


class Msg:
    """the attested transceiver message the redeem instruction reads (raw account bytes)"""

    def __init__(self, p):
        want = disc("ValidatedTransceiverMessage")
        c = []
        for f, v in p.p.facts.items():
            if v and f.op == "eq":
                for x, y in (f.a, f.a[::-1]):
                    if x is want and y.op == "slice" and y.a[0].op == "rawdata" and y.a[1] == I(0) and y.a[2] == I(8):
                        c.append(y.a[0].a[0])
        if len(c) != 1:
            raise Broken("message-discriminator", p.where, "the transceiver message account is not checked to carry the ValidatedTransceiverMessage discriminator")
        a = self.acc = c[0]
        self.from_chain = rawle(a, 8, 2)
        self.source_mgr = raw(a, 10, 42)
        self.recipient_mgr = raw(a, 42, 74)
        self.id = raw(a, 74, 106)
        self.sender = raw(a, 106, 138)
        self.amount = rawle(a, 138, 8)
        self.decimals = rawle(a, 146, 1)
        self.source_token = raw(a, 147, 179)
        self.to_chain = rawle(a, 179, 2)
        self.to = raw(a, 181, 213)

    def digest(self):
        return mk("keccak", cat(be(self.from_chain, 2), self.id, self.sender, X(bytes.fromhex("004f994e5454")), be(self.decimals, 1),
                                be(self.amount, 8), self.source_token, self.to, be(self.to_chain, 2)))


# --------------------------------------------------------------- specification functions
def is_min(p, v, a, b):
    return all(q.same(v, a if t else b) for t, q in p.cases(le(a, b)))


def sp_capacity(p, R, t=now):
    """[(path, value)]: capacity of limiter R at time t"""
    lim, last, ts = F(R, "limit"), F(R, "capacity_at_last_tx"), F(R, "last_tx_timestamp")
    v = add(last, div(mul(sub(t, ts), lim), DAY))
    return [(q, v if b else lim) for b, q in p.cases(le(v, lim))]


def sp_untrim(p, a, f, t):
    """[(path, value)]: a tokens with f decimals expressed in t decimals"""
    out = []
    for b, q in p.cases(eq(f, t, True)):
        if b:
            out.append((q, a))
            continue
        for b2, q2 in q.cases(lt(f, t)):
            out.append((q2, mul(a, pow10(sub(t, f))) if b2 else div(a, pow10(sub(f, t)))))
    return out


def rl_same(p, A, B):
    return all(p.same(F(A, n), F(B, n)) for n in ("limit", "capacity_at_last_tx", "last_tx_timestamp"))


def fn_key(crate, suffix):
    """full key of a function given by its last path segments"""
    pr = summ.prog(crate)
    c = [k for k in pr.raw if (k == suffix or k.endswith("::" + suffix) or k.replace(">", "").endswith(suffix) or k.endswith(suffix)) and "{closure" not in k]
    if len(c) != 1:
        raise Broken("function", suffix, f"function {suffix} not found exactly once: {c[:4]}")
    return c[0]


def fn_paths(rep, crate, suffix, args, tys=None, st=None):
    k = fn_key(crate, suffix)
    import absint
    ip = absint.Interp(summ.prog(crate), models.M)
    s = st or absint.State()
    for a, t in zip(args, tys or ()):
        if t in ("u8", "u16", "u32", "u64", "u128"):
            ip._bound(s, a, 0, (1 << int(t[1:])) - 1)
    ip, ps = summ.run_fn(crate, k, args, s, name=k, ip=ip)
    rep.analysed[k] = len(ps)
    rep.steps += ip.steps
    rep.forks += ip.nforks
    rep.calls += ip.ncalls
    rep.fns |= ip.visited
    return ip, [q for p in ps for q in split(P(p, crate, k))]


def adt_struct(name):
    c = {k[0] for k in tm._FIELDIDX if k[0] == name or k[0].endswith("::" + name)}
    if len(c) != 1:
        raise Broken("type", name, f"type {name} not found exactly once")
    return c.pop()


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".index(c)
    return n.to_bytes(32, "big")


LOADER = X(b58("BPFLoaderUpgradeab1e11111111111111111111111"))
