"""Contracts of the records' and amounts' own public functions, for every state and argument.

They back the instruction-level rules: a function that is gone, renamed or has another
signature is skipped (the instruction-level rules still decide the behaviour)."""
import absint
from lib import *

NM = "ntt_messages"


class Fn:
    def __init__(self, rep, crate, suffix, argc):
        self.rep, self.crate, self.key = rep, crate, None
        pr = summ.prog(crate)
        c = [k for k in pr.raw if k.endswith(suffix) and "{closure" not in k]
        if len(c) == 1 and pr.raw[c[0]]["argc"] == argc:
            self.key = c[0]
        self.w = (self.key or suffix).replace("<", "").replace(">", "")
        self.st = absint.State()
        self.ip = absint.Interp(pr, models.M)

    def __bool__(self):
        return self.key is not None

    def bound(self, v, n):
        self.ip._bound(self.st, v, 0, (1 << n) - 1)

    def cell(self, v):
        return self.ip.alloc(self.st, v)

    def run(self, *args):
        ip, ps = summ.run_fn(self.crate, self.key, list(args), self.st, name=self.key, ip=self.ip)
        rep = self.rep
        rep.analysed[self.key] = len(ps)
        rep.steps += ip.steps
        rep.forks += ip.nforks
        rep.calls += ip.ncalls
        rep.fns |= ip.visited
        return [q for p in ps for q in split(P(p, self.crate, self.key))]

    def ob(self, rule, ok, msg, p):
        return self.rep.ob(rule, self.w, ok, msg, p)


def struct(name, **vals):
    """a value of a struct with the given field values; None when the struct has other fields"""
    try:
        t = adt_struct(name)
    except Broken:
        return None
    n = t.split("::")[-1]
    ix = tm._FIELDIDX.get((t, n))
    if ix is None or set(ix) != set(vals):
        return None
    out = [None] * len(ix)
    for f, i in ix.items():
        out[i] = vals[f]
    return agg(t, n, *out)


def S(n):
    return tm.sym(n)


TRUE, FALSE = tm.TRUE, tm.FALSE


# ------------------------------------------------------------------ limiter
def limiter_state(f):
    R = struct("rate_limit::RateLimitState", limit=S("limit"), capacity_at_last_tx=S("capacity_at_last_tx"), last_tx_timestamp=S("last_tx_timestamp"))
    if R is not None:
        f.bound(S("limit"), 64)
        f.bound(S("capacity_at_last_tx"), 64)
    return R


def ratelimit(rep, t0):
    import props_out
    f = Fn(rep, MGR, "RateLimitState>::capacity_at", 2)
    R = limiter_state(f)
    if f and R is not None:
        n = 0
        t = S("now")
        for p in f.run(f.cell(R), t):
            for q, cap in sp_capacity(p, R, t):
                n += 1
                f.ob("capacity-at", q.same(p.p.ret, cap), f"returns {p.p.ret}", q)
        rep.need("capacity-at", f.w, n >= 2, "cases of the capacity")
    f = Fn(rep, MGR, "RateLimitState>::capacity", 1)
    R = limiter_state(f)
    if f and R is not None:
        for p in f.run(f.cell(R)):
            for q, cap in sp_capacity(p, R, t0):
                f.ob("capacity-now", q.same(p.p.ret, cap), f"returns {p.p.ret}", q)
    f = Fn(rep, MGR, "RateLimitState>::new", 1)
    if f and R is not None:
        f.bound(S("limit"), 64)
        for p in f.run(S("limit")):
            v = p.p.ret
            f.ob("new-limiter-full", p.same(F(v, "limit"), S("limit")) and p.same(F(v, "capacity_at_last_tx"), S("limit")), f"returns {v}", p)
    f = Fn(rep, MGR, "RateLimitState>::consume_or_delay", 2)
    R = limiter_state(f)
    if f and R is not None:
        A = S("amount")
        f.bound(A, 64)
        c = f.cell(R)
        for p in f.run(c, A):
            v, r = f.ip.deref(p.p.st, c), p.p.ret
            for q, cap in sp_capacity(p, R, t0):
                for fits, q2 in q.cases(le(A, cap)):
                    if fits:
                        ok = q2.same(F(v, "capacity_at_last_tx"), sub(cap, A)) and q2.same(F(v, "last_tx_timestamp"), t0) and q2.same(F(v, "limit"), F(R, "limit"))
                        f.ob("consume-charges", ok, f"becomes {v}", q2)
                        f.ob("consume-result", variant(r) == "Consumed" and q2.same(payload(r, "Consumed"), t0), f"returns {r}", q2)
                    else:
                        f.ob("delay-changes-nothing", rl_same(q2, v, R), f"becomes {v}", q2)
                        f.ob("delay-result", variant(r) == "Delayed" and q2.same(payload(r, "Delayed"), add(t0, DAY)), f"returns {r}", q2)
    f = Fn(rep, MGR, "RateLimitState>::refill", 3)
    R = limiter_state(f)
    if f and R is not None:
        A, t = S("amount"), S("now")
        f.bound(A, 64)
        c = f.cell(R)
        for p in f.run(c, t, A):
            v = f.ip.deref(p.p.st, c)
            for q, want in props_out.sp_refill(p, R, A, t):
                ok = q.same(F(v, "capacity_at_last_tx"), want) and q.same(F(v, "last_tx_timestamp"), t) and q.same(F(v, "limit"), F(R, "limit"))
                f.ob("refill", ok, f"becomes {v}", q)
    f = Fn(rep, MGR, "RateLimitState>::set_limit", 2)
    R = limiter_state(f)
    if f and R is not None:
        new, old = S("new_limit"), F(R, "limit")
        f.bound(new, 64)
        c = f.cell(R)
        for p in f.run(c, new):
            v = f.ip.deref(p.p.st, c)
            for q, cap in sp_capacity(p, R, t0):
                f.ob("set-limit-stamp", q.same(F(v, "limit"), new) and q.same(F(v, "last_tx_timestamp"), t0), f"becomes {v}", q)
                for ok, q1 in set_limit_cases(q, cap, new, old, F(v, "capacity_at_last_tx")):
                    f.ob("set-limit-capacity", ok, f"capacity becomes {F(v, 'capacity_at_last_tx')}", q1)


def set_limit_cases(q, cap, new, old, got):
    """[(as specified?, path)]: capacity moves by as much as the limit, clamped to [0, new limit]"""
    v = add(cap, sub(new, old))
    out = []
    for b0, q0 in q.cases(le(new, sub(old, I(1)))):
        if b0:
            for b1, q1 in q0.cases(le(I(0), v)):
                ex = v if b1 else I(0)
                out.append((all(q2.same(got, ex if b2 else new) for b2, q2 in q1.cases(le(ex, new))), q1))
        else:
            for b1, q1 in q0.cases(le(v, I(U64))):
                if b1:
                    out.append((all(q2.same(got, v if b2 else new) for b2, q2 in q1.cases(le(v, new))), q1))
                else:
                    out.append((q1.same(got, new), q1))
    return out


def variant(t):
    return t.a[1] if t.op == "agg" else None


# ------------------------------------------------------------------ inbox and outbox records
def inbox(rep, t0, refusals=True):
    RS = "inbox::ReleaseStatus"
    names = ("init", "bump", "amount", "recipient_address", "votes", "release_status")
    item = struct("inbox::InboxItem", **{n: S(n) for n in names})
    if item is None:
        return
    f = Fn(rep, MGR, "inbox::InboxItem>::try_release", 1)
    st = S("release_status")
    rest = [n for n in names if n != "release_status"]

    def same_rest(p, v):
        return all(p.same(F(v, n), S(n)) for n in rest)
    if f:
        c = f.cell(item)
        for p in f.run(c):
            v, r = f.ip.deref(p.p.st, c), p.p.ret
            if summ.is_err(r):
                continue
            r = payload(r, "Ok")
            f.ob("release-touches-status-only", same_rest(p, v), f"becomes {v}", p)
            due = p.decide(var(st, RS, "ReleaseAfter")) is True and p.decide(le(fld_of(st, RS, "ReleaseAfter"), t0)) is True
            if p.decide(r) is True:
                f.ob("release-grants-once-due", (due or not refusals and p.decide(var(st, RS, "ReleaseAfter")) is True) and p.decide(var(F(v, "release_status"), RS, "Released")) is True, f"granted; status {st} becomes {F(v, 'release_status')}", p)
            elif refusals:
                f.ob("release-refuses-only-early", p.decide(r) is False and not due and p.decide(var(st, RS, "Released")) is False and p.same(F(v, "release_status"), st), f"returns {r}; status becomes {F(v, 'release_status')}", p)
    f = Fn(rep, MGR, "inbox::InboxItem>::release_after", 2)
    if f:
        c, t = f.cell(item), S("release_time")
        for p in f.run(c, t):
            v, r = f.ip.deref(p.p.st, c), p.p.ret
            if summ.is_err(r):
                continue
            ok = p.decide(var(st, RS, "NotApproved")) is True and p.decide(var(F(v, "release_status"), RS, "ReleaseAfter")) is True and p.same(fld_of(F(v, "release_status"), RS, "ReleaseAfter"), t)
            f.ob("approval-once", ok and same_rest(p, v), f"status {st} becomes {F(v, 'release_status')}", p)


def fld_of(v, enum, variant):
    return payload(v, variant)


def outbox(rep, t0):
    names = ("amount", "sender", "recipient_chain", "recipient_ntt_manager", "recipient_address", "release_timestamp", "released")
    try:
        bt = adt_struct(MGR + "::bitmap::Bitmap")
    except Broken:
        return
    m, i = S("released_map"), S("index")
    vals = {n: S(n) for n in names}
    vals["released"] = agg(bt, "Bitmap", m)
    item = struct("outbox::OutboxItem", **vals)
    f = Fn(rep, MGR, "outbox::OutboxItem>::try_release", 2)
    if item is None or not f:
        return
    f.bound(i, 8)
    c = f.cell(item)
    for p in f.run(c, i):
        v, r = f.ip.deref(p.p.st, c), p.p.ret
        if summ.is_err(r):
            continue
        r = payload(r, "Ok")
        f.ob("send-touches-marks-only", all(p.same(F(v, n), S(n)) for n in names if n != "released"), f"becomes {v}", p)
        due = p.decide(le(S("release_timestamp"), t0))
        if p.decide(r) is True:
            ok = due is True and p.decide(tm.bit(m, i)) is False and p.holds(le(i, I(127))) and p.same(F(v, "released", "map"), tm.setbit(m, i, TRUE))
            f.ob("send-grants-once-due", ok, f"granted; marks become {F(v, 'released', 'map')}", p)
        else:
            f.ob("send-refuses-only-early", p.decide(r) is False and due is False and p.same(F(v, "released", "map"), m), f"returns {r}; marks become {F(v, 'released', 'map')}", p)


# ------------------------------------------------------------------ bitmap
def bitmap(rep):
    i, m, b, e = S("index"), S("map"), S("flag"), S("enabled")
    try:
        t = adt_struct(MGR + "::bitmap::Bitmap")
    except Broken:
        return
    if set(tm._FIELDIDX.get((t, "Bitmap"), ())) != {"map"}:
        return
    for fn, n in (("get", 2), ("set", 3)):
        f = Fn(rep, MGR, f"bitmap::Bitmap>::{fn}", n)
        if not f:
            continue
        f.bound(i, 8)
        c = f.cell(agg(t, "Bitmap", m))
        good = 0
        for p in f.run(*([c, i] + ([b] if fn == "set" else []))):
            if summ.is_err(p.p.ret):
                f.ob(f"bitmap-{fn}-range", p.decide(le(i, I(127))) is False, "index below 128 rejected", p)
                continue
            good += 1
            f.ob(f"bitmap-{fn}-range", p.holds(le(i, I(127))), "index above 127 accepted", p)
            if fn == "get":
                r = payload(p.p.ret, "Ok")
                f.ob("bitmap-get", p.same(r, tm.bit(m, i)), f"returns {r}", p)
            else:
                v = F(f.ip.deref(p.p.st, c), "map")
                for on, q in p.cases(b):
                    ok = q.same(v, tm.setbit(m, i, b)) or q.same(v, tm.setbit(m, i, B(on))) or q.same(v, m) and q.decide(tm.bit(m, i)) is on
                    f.ob("bitmap-set", ok, f"stores {v}", q)
        f.ob(f"bitmap-{fn}-succeeds", good > 0, "never succeeds", None)


def votes(rep):
    m, e = S("map"), S("enabled")
    try:
        t = adt_struct(MGR + "::bitmap::Bitmap")
    except Broken:
        return
    f = Fn(rep, MGR, "bitmap::Bitmap>::count_enabled_votes", 2)
    if f:
        c = f.cell(agg(t, "Bitmap", m))
        for p in f.run(c, agg(t, "Bitmap", e)):
            f.ob("votes-counted", p.same(p.p.ret, mk("popcount", tm.comm("band", m, e))), f"returns {p.p.ret}", p)


# ------------------------------------------------------------------ amounts
def amounts(rep, which):
    a, d, f0, t = S("amount"), S("decimals"), S("from"), S("to")
    try:
        ty = adt_struct("trimmed_amount::TrimmedAmount")
    except Broken:
        return
    A = struct("trimmed_amount::TrimmedAmount", amount=a, decimals=d)
    if A is None:
        return

    def fn(name, argc):
        f = Fn(rep, NM, f"TrimmedAmount>::{name}", argc)
        for v, n in ((a, 64), (d, 8), (f0, 8), (t, 8)):
            f.bound(v, n)
        return f

    if "untrim" in which:
        f = fn("untrim", 2)
        if f:
            for p in f.run(f.cell(A), t):
                if not summ.is_err(p.p.ret):
                    for q, want in sp_untrim(p, a, d, t):
                        f.ob("untrim-exact", q.same(payload(p.p.ret, "Ok"), want), f"{payload(p.p.ret, 'Ok')} vs {want}", q)
        f = fn("change_decimals", 2)
        if f:
            for p in f.run(f.cell(A), t):
                if not summ.is_err(p.p.ret):
                    r = payload(p.p.ret, "Ok")
                    for q, want in sp_untrim(p, a, d, t):
                        f.ob("change-decimals-exact", q.same(F(r, "amount"), want) and q.same(F(r, "decimals"), t), f"{r} vs {want}", q)
    if "trim" in which:
        def spec(p):
            """[(path, decimals, trimmed, cleaned)]"""
            out = []
            for b1, q1 in p.cases(lt(f0, I(8))):
                x = f0 if b1 else I(8)
                for b2, q2 in q1.cases(lt(t, x)):
                    dd = t if b2 else x
                    for b3, q3 in q2.cases(eq(f0, dd, True)):
                        out.append((q3, dd, a if b3 else div(a, pow10(sub(f0, dd))), a if b3 else mul(div(a, pow10(sub(f0, dd))), pow10(sub(f0, dd)))))
            return out
        f = fn("trim", 3)
        if f:
            for p in f.run(a, f0, t):
                if not summ.is_err(p.p.ret):
                    r = payload(p.p.ret, "Ok")
                    for q, dd, want, _ in spec(p):
                        f.ob("trim-amount", q.same(F(r, "amount"), want) and q.same(F(r, "decimals"), dd), f"{r} vs {want}, {dd}", q)
        f = fn("remove_dust", 3)
        if f:
            c = f.cell(a)
            for p in f.run(c, f0, t):
                if not summ.is_err(p.p.ret):
                    r, left = payload(p.p.ret, "Ok"), f.ip.deref(p.p.st, c)
                    for q, dd, want, clean in spec(p):
                        f.ob("dust-trimmed", q.same(F(r, "amount"), want) and q.same(F(r, "decimals"), dd), f"{r} vs {want}, {dd}", q)
                        f.ob("dust-removed", q.same(left, clean), f"{left} vs {clean}", q)


def transfer_hash(rep):
    f = Fn(rep, MGR, "transfer::TransferArgs>::keccak256", 1)
    c0 = struct("chain_id::ChainId", id=S("chain"))
    if c0 is None:
        return
    v = struct("transfer::TransferArgs", amount=S("amount"), recipient_chain=c0, recipient_address=S("to"), should_queue=S("queue"))
    if f and v is not None:
        f.bound(S("amount"), 64)
        f.bound(S("chain"), 16)
        f.ip.lens[S("to")] = 32
        for p in f.run(f.cell(v)):
            want = mk("keccak", cat(be(S("amount"), 8), be(S("chain"), 2), S("to"), be(mk("b2i", S("queue")), 1)))
            f.ob("arguments-hash", p.same(p.p.ret, want), f"hashes {p.p.ret}", p)


def message_tag(rep):
    """the attested message's readers of raw bytes accept nothing without the whole type tag"""
    inst = "::<ntt_messages::ntt::NativeTokenTransfer<ntt_messages::ntt::EmptyPayload>>"
    for fn in ("discriminator_check", "message", "from_chain"):
        f = Fn(rep, MGR, "messages::ValidatedTransceiverMessage<A>>::" + fn + inst, 1)
        if not f:
            continue
        d, arg = S("bytes"), S("bytes")
        if fn == "from_chain":
            d, arg = mk("rawdata", S("acc")), f.cell(S("acc"))
        good = 0
        for p in f.run(arg):
            r = p.p.ret
            if p.decide(var(r, "result::Result", "Ok")) is False:
                continue
            good += 1
            z = p.p.nf(mk("slice", d, I(0), I(8)))
            tag = disc("ValidatedTransceiverMessage")
            # compared as a whole or byte by byte
            ok = z is tag or all(p.same(f.ip.get(z, ("x", I(i))), f.ip.get(tag, ("x", I(i)))) for i in range(8))
            f.ob("raw-reader-type-checked", ok, f"accepts bytes tagged {z}", p)
        f.ob("raw-reader-accepts", good > 0, "never accepts", None)
