"""Outbound side: C06-C08, C10-C13, C32."""
import props_fns
from lib import *

XFER = ("transfer_burn", "transfer_lock")


def xfer(rep):
    for root in XFER:
        for p in paths(rep, MGR, root):
            yield p


class Xfer:
    """the accounts and quantities of an outgoing transfer path"""

    def __init__(self, p):
        self.cfg = p.pre(p.one("Config"), "Config")
        a = p.arg(0)
        if a is None:
            raise Broken("arguments", p.where, "transfer arguments are not used")
        self.arg = a
        self.amt, self.chain, self.to, self.queue = F(a, "amount"), F(a, "recipient_chain", "id"), F(a, "recipient_address"), F(a, "should_queue")
        self.peer_acc = p.one("NttManagerPeer")
        self.peer = p.pre(self.peer_acc, "NttManagerPeer")
        self.mint_acc = p.one("Mint")
        self.mint = p.pre(self.mint_acc, "Mint")
        ts = p.accts("TokenAccount")
        c = [x for x in ts if p.same(key(x), F(self.cfg, "custody"))]
        if len(c) != 1:
            raise Broken("custody", p.where, "no single checked custody token account")
        self.custody = c[0]
        f = [x for x in ts if x is not c[0]]
        if len(f) != 1:
            raise Broken("source", p.where, "no single checked source token account")
        self.src = f[0]
        self.srcd = p.pre(self.src, "TokenAccount")
        self.item_acc = p.one("OutboxItem")
        self.item = p.post(self.item_acc, "OutboxItem")
        self.m, self.pd = F(self.mint, "decimals"), F(self.peer, "token_decimals")

    def trimmed(self, p):
        """[(path, trimmed amount, trimmed decimals, amount without dust)]"""
        out = []
        for b1, q1 in p.cases(lt(self.m, I(8))):
            x = self.m if b1 else I(8)
            for b2, q2 in q1.cases(lt(self.pd, x)):
                d = self.pd if b2 else x
                for b3, q3 in q2.cases(eq(self.m, d, True)):
                    if b3:
                        out.append((q3, self.amt, d, self.amt))
                    else:
                        s = pow10(sub(self.m, d))
                        out.append((q3, div(self.amt, s), d, mul(div(self.amt, s), s)))
        return out


def moved(p):
    return [e for e in p.eff if e.kind in TOKEN_OPS]


def c06(rep):
    for p in xfer(rep):
        x = Xfer(p)
        w = p.where
        ops = moved(p)
        dep = [e for e in ops if e.kind == "transfer"]
        rep.need("one-deposit", w, len(dep) == 1 and not dep[0].loop, f"{len(dep)} deposits")
        d = dep[0].kw
        A = d["amount"]
        rep.ob("deposit-into-custody", w, p.same(key(d["dst"]), F(x.cfg, "custody")), "deposit does not go to custody", p, dep[0])
        rep.ob("deposit-from-sender", w, d["src"] is x.src, "deposit is not taken from the sender's account", p, dep[0])
        rep.ob("deposit-mint", w, p.same(key(d["mint"]), F(x.cfg, "mint")) and p.same(d["decimals"], x.m), "wrong mint or decimals", p, dep[0])
        out = sub(A, I(0))
        if p.root == "transfer_burn":
            bs = [e for e in ops if e.kind == "burn"]
            rep.need("one-burn", w, len(bs) == 1 and not bs[0].loop and len(ops) == 2 and ops[1] is bs[0], "not exactly one burn after the deposit")
            b = bs[0].kw
            rep.ob("burn-equals-deposit", w, p.same(b["amount"], A), f"burns {b['amount']}, took {A}", p, bs[0])
            rep.ob("burn-from-custody", w, p.same(key(b["src"]), F(x.cfg, "custody")) and p.same(key(b["mint"]), F(x.cfg, "mint")), "burns from elsewhere", p, bs[0])
            rep.ob("burn-authority", w, p.is_pda(b["auth"], [X(b"token_authority")]) and p.signs_for(b["seeds"], b["auth"]), "burn not signed by the token authority", p, bs[0])
            out = I(0)
        else:
            rep.ob("no-other-token-op", w, len(ops) == 1, "locking performs other token operations", p)
        # the balance actually observed after all token operations
        t = p.fullty(x.custody, "TokenAccount")
        b0 = F(mk("data", x.custody, t), "amount")
        ok = False
        for f, v in p.p.facts.items():
            if f.op in ("eq", "le"):
                for y in tm.subterms(f):
                    if y.op == "data" and y.a[0] is x.custody and len(y.a) == 3 and y.a[2] == len(ops):
                        ok = ok or p.same(F(y, "amount"), add(b0, out)) or p.holds(eq(F(y, "amount"), add(b0, out), True))
        rep.ob("custody-balance-checked", w, ok, "the custody balance after the token operations is not compared with the expected one", p)
        for q, a, dec, clean in x.trimmed(p):
            rep.ob("deposit-equals-sent", w, q.same(A, clean), f"takes {A}, sends {a} with {dec} decimals", q, dep[0])
    rep.floor("one-deposit", 2)
    rep.floor("one-burn", 1)


def c07(rep):
    for p in xfer(rep):
        x = Xfer(p)
        w = p.where
        rep.ob("mint-is-configured", w, p.same(key(x.mint_acc), F(x.cfg, "mint")), "decimals not from the configured mint", p)
        for q, a, dec, clean in x.trimmed(p):
            rep.ob("sent-decimals", w, q.same(F(x.item, "amount", "decimals"), dec), f"sent decimals {F(x.item, 'amount', 'decimals')}, expected {dec}", q)
            rep.ob("sent-amount", w, q.same(F(x.item, "amount", "amount"), a), f"sent amount {F(x.item, 'amount', 'amount')}, expected {a}", q)
            ops = [e for e in moved(p) if e.kind == "transfer"]
            rep.ob("dust-not-taken", w, bool(ops) and q.same(ops[0].kw["amount"], clean), "the deposit is not the dust-free amount", q)
    rep.floor("sent-amount", 4)
    props_fns.amounts(rep, ("trim",))


def c08(rep):
    for p in xfer(rep):
        x = Xfer(p)
        w = p.where
        dep = [e for e in moved(p) if e.kind == "transfer"]
        rep.need("one-deposit", w, len(dep) == 1, f"{len(dep)} deposits")
        d = dep[0].kw
        h = mk("keccak", cat(be(x.amt, 8), be(x.chain, 2), x.to, be(mk("b2i", x.queue), 1)))
        for seed in (X(b"session_authority"),):
            ok = p.is_pda(d["auth"], [seed, F(x.srcd, "owner"), h])
            rep.ob("session-authority-binds-arguments", w, ok, "the spending authority is not derived from the sender and all transfer arguments", p, dep[0])
            rep.ob("session-authority-signs", w, ok and p.signs_for(d["seeds"], d["auth"]), "transfer not signed by the session authority", p, dep[0])
        rep.ob("sender-is-source-owner", w, p.same(F(x.item, "sender"), F(x.srcd, "owner")), "recorded sender is not the owner of the debited account", p)
        rep.ob("source-is-debited", w, d["src"] is x.src, "another account is debited", p, dep[0])
    # no other instruction debits an account of a user
    for p in all_paths(rep, MGR, TRX, QTR):
        if p.root in XFER:
            continue
        for e in moved(p):
            src = e.kw.get("src")
            ok = e.kind == "mint_to" or any(p.same(key(src), F(p.pre(c, "Config"), "custody")) for c in p.accts("Config"))
            rep.ob("only-custody-debited", p.where, ok, "a token account other than custody is debited", p, e)
    props_fns.transfer_hash(rep)
    rep.floor("session-authority-binds-arguments", 2)
    rep.floor("only-custody-debited", 2)


def sp_refill(p, pre, A, t=now):
    out = []
    for q, cap in sp_capacity(p, pre, t):
        s = add(cap, A)
        lim = F(pre, "limit")
        for b, q2 in q.cases(le(s, I(U64))):
            if not b:
                out.append((q2, lim))
                continue
            for b3, q3 in q2.cases(le(s, lim)):
                out.append((q3, s if b3 else lim))
    return out


def limiter(rep, w, p, name, pre, post, A, side):
    """consume-or-delay on one limiter. [(path, consumed?)]"""
    res = []
    for q, cap in sp_capacity(p, pre):
        b = q.decide(le(A, cap))
        if rep.ob(f"{side}-capacity-decides", w, b is not None, f"path does not depend on whether the amount fits the {name} capacity", q):
            res.append((q, b))
            if b:
                ok = q.same(F(post, "capacity_at_last_tx"), sub(cap, A)) and q.same(F(post, "last_tx_timestamp"), now) and q.same(F(post, "limit"), F(pre, "limit"))
                rep.ob(f"{side}-consumes", w, ok, f"capacity becomes {F(post, 'capacity_at_last_tx')}", q)
            else:
                rep.ob(f"{side}-delayed-unchanged", w, rl_same(q, pre, post), "a delayed transfer changes the limiter", q)
    return res


def backflow(rep, w, q, consumed, pre, post, A, side):
    if consumed:
        for q2, v in sp_refill(q, pre, A):
            ok = q2.same(F(post, "capacity_at_last_tx"), v) and q2.same(F(post, "last_tx_timestamp"), now) and q2.same(F(post, "limit"), F(pre, "limit"))
            rep.ob(f"{side}-backflow", w, ok, f"capacity becomes {F(post, 'capacity_at_last_tx')}, expected {v}", q2)
    else:
        rep.ob(f"{side}-no-backflow", w, rl_same(q, pre, post), "a delayed transfer refills the opposite limiter", q)


def rl(p, ty):
    a = p.one(ty)
    return a, F(p.pre(a, ty), "rate_limit"), F(p.post(a, ty), "rate_limit")


def c10(rep):
    import props_in
    for p in xfer(rep):
        x = Xfer(p)
        w = p.where
        oa, opre, opost = rl(p, "OutboxRateLimit")
        ia, ipre, ipost = rl(p, "InboxRateLimit")
        rep.ob("out-backflow-chain", w, p.is_pda(ia, [X(b"inbox_rate_limit"), be(x.chain, 2)]), "backflow goes to the limiter of another chain", p)
        dep = [e for e in moved(p) if e.kind == "transfer"]
        rep.need("one-deposit", w, len(dep) == 1, "no single deposit")
        A = dep[0].kw["amount"]
        for q, b in limiter(rep, w, p, "outbound", opre, opost, A, "out"):
            backflow(rep, w, q, b, ipre, ipost, A, "out")
            ts = F(x.item, "release_timestamp")
            if b:
                rep.ob("out-immediate", w, q.same(ts, now), f"release time {ts}", q)
            else:
                rep.ob("out-queued-24h", w, q.same(ts, add(now, DAY)), f"release time {ts}", q)
                rep.ob("out-queue-opt-in", w, q.holds(x.queue), "queued although the sender asked to fail", q)
        for acc, ty in ((oa, "OutboxRateLimit"), (ia, "InboxRateLimit")):
            rep.ob("out-limiter-stored", w, p.written(acc, ty), f"{ty} update is not stored", p)
    for p, a, fresh in props_in.redeem_paths(rep):
        w = p.where
        m = Msg(p)
        oa, opre, opost = rl(p, "OutboxRateLimit")
        ia, ipre, ipost = rl(p, "InboxRateLimit")
        rep.ob("in-limiter-chain", w, p.is_pda(ia, [X(b"inbox_rate_limit"), be(m.from_chain, 2)]), "limiter of another chain is used", p)
        for acc, ty in ((oa, "OutboxRateLimit"), (ia, "InboxRateLimit")):
            rep.ob("in-limiter-stored", w, p.written(acc, ty), f"{ty} update is not stored", p)
        pre, post = p.pre(a, "InboxItem"), p.post(a, "InboxItem")
        approve = (fresh or props_in.st(p, pre, "NotApproved")) and props_in.st(p, post, "ReleaseAfter")
        if not approve:
            rep.ob("in-no-consume-without-approval", w, rl_same(p, ipre, ipost) and rl_same(p, opre, opost), "limiters change without an approval", p)
            continue
        ts = payload(F(post, "release_status"), "ReleaseAfter")
        for q0, A in sp_untrim(p, m.amount, m.decimals, F(p.pre(p.one("Mint"), "Mint"), "decimals")):
            for q, b in limiter(rep, w, q0, "inbound", ipre, ipost, A, "in"):
                backflow(rep, w, q, b, opre, opost, A, "in")
                if b:
                    rep.ob("in-immediate", w, q.same(ts, now), f"release time {ts}", q)
                else:
                    rep.ob("in-queued-24h", w, q.same(ts, add(now, DAY)), f"release time {ts}", q)
    for r in ("out-consumes", "out-delayed-unchanged", "out-backflow", "in-consumes", "in-delayed-unchanged", "in-backflow", "out-queued-24h", "in-queued-24h"):
        rep.floor(r, 1)


def posts(p):
    """wormhole post_message invocations: (effect, payload, accounts)"""
    out = []
    for e in p.effects("invoke"):
        ix = e.kw["ix"]
        if ix.op != "agg":
            continue
        d = F(ix, "data")
        if d.op == "borsh" and d.a[0].op == "agg" and d.a[0].a[1] in ("PostMessage", "PostMessageUnreliable"):
            out.append((e, d.a[0], F(ix, "accounts")))
    return out


MARK = None


def marks(p):
    """calls of the manager's mark_outbox_item_as_released: (effect, CpiContext accounts struct)"""
    import hashlib
    disc_ = hashlib.sha256(b"global:mark_outbox_item_as_released").digest()[:8]
    out = []
    for e in p.effects("invoke"):
        ix = e.kw["ix"]
        d = F(ix, "data")
        first = d.a[0] if d.op == "cat" else d
        if first.op == "bytes" and first.a[0][:8] == disc_:
            for y in tm.subterms(F(ix, "accounts")):
                if y.op == "agg" and y.a[0].endswith("CpiContext"):
                    out.append((e, F(y, "accounts"), ix))
    return out


def rel_out(rep, *crates):
    for c in crates:
        for p in paths(rep, c, "release_wormhole_outbound"):
            yield p


def item_ver(p, item):
    t = p.fullty(item, "OutboxItem")
    return mk("data", item, t)


def c11(rep):
    for p in rel_out(rep, MGR, TRX):
        w = p.where
        item, rtacc = p.one("OutboxItem"), p.one("RegisteredTransceiver")
        rt, cfg = p.pre(rtacc, "RegisteredTransceiver"), p.pre(p.one("Config"), "Config")
        i = F(rt, "id")
        pre, post = p.pre(item, "OutboxItem"), p.post(item, "OutboxItem")
        ps = posts(p)
        rep.ob("release-posts-at-most-once", w, len(ps) <= 1 and not any(e.loop for e, _, _ in ps), "more than one message posted", p)
        arg = p.arg(0)
        rev = F(arg, "revert_on_delay") if arg is not None else None
        if ps:
            e = ps[0][0]
            rep.ob("release-own-transceiver", w, p.same(F(rt, "transceiver_address"), p.id), "transceiver record is not this program's", p, e)
            rep.ob("release-transceiver-enabled", w, p.holds(tm.bit(F(cfg, "enabled_transceivers", "map"), i)), "disabled transceiver can release", p, e)
            if p.crate == MGR:
                rep.ob("release-not-before", w, p.decide(tm.bit(F(pre, "released", "map"), i)) is False, "already released by this transceiver", p, e)
                rep.ob("release-marks", w, p.written(item, "OutboxItem") and p.same(F(post, "released", "map"), tm.setbit(F(pre, "released", "map"), i, tm.TRUE)),
                       f"released becomes {F(post, 'released', 'map')}", p, e)
                rep.ob("release-not-early", w, p.holds(le(F(pre, "release_timestamp"), now)), "message posted before its release time", p, e)
            else:
                ms = [(x, a, ix) for x, a, ix in marks(p) if p.eff.index(x) < p.eff.index(e)]
                rep.need("release-via-manager", w, len(ms) == 1 and not ms[0][0].loop, "message posted without marking the item released through the manager")
                x, a, ix = ms[0]
                prog = [f.a[0] for f, v in p.p.facts.items() if v and f.op == "program" and tmatch(f.a[1], "ExampleNativeTokenTransfers")]
                rep.ob("mark-calls-manager", w, any(p.same(F(ix, "program_id"), key(g)) for g in prog), "marked through another program", p, x)
                rep.ob("mark-same-item", w, F(a, "outbox_item") is item and F(a, "transceiver") is rtacc, "another item or transceiver is marked", p, x)
                s = F(a, "signer")
                rep.ob("mark-signed", w, s.op == "acc" and p.is_pda(s, [X(b"outbox_item_signer")]) and p.signs_for(x.kw["seeds"], s), "mark not signed by the transceiver", p, x)
                oks = [f for f, v in p.p.facts.items() if v and f.op == "borsh_de" and f.a[0] == "bool" and any(y.op == "retdata" and ix in y.a for y in tm.subterms(f))]
                rep.ob("mark-result-checked", w, bool(oks), "message posted although the manager did not release the item", p, x)
                prog = [y for y in tm.subterms(oks[0]) if y.op == "retdata"] if oks else []
        else:
            rep.ob("delayed-unmarked", w, p.crate == TRX or p.same(F(post, "released"), F(pre, "released")), "item marked released although nothing was posted", p)
            rep.ob("delayed-revert", w, rev is not None and p.decide(rev) is False, "reports success without sending although the caller asked to fail on delay", p)
            if p.crate == MGR:
                rep.ob("silent-only-when-delayed", w, p.decide(le(F(pre, "release_timestamp"), now)) is False, "releasable item is not sent", p)
            else:
                ms = marks(p)
                no = [f for f, v in p.p.facts.items() if v is False and f.op == "borsh_de" and f.a[0] == "bool"]
                rep.ob("silent-only-when-delayed", w, len(ms) == 1 and bool(no), "succeeds without sending although the manager released the item", p)
    for p in paths(rep, MGR, "mark_outbox_item_as_released"):
        w = p.where
        item, rtacc = p.one("OutboxItem"), p.one("RegisteredTransceiver")
        rt, cfg = p.pre(rtacc, "RegisteredTransceiver"), p.pre(p.one("Config"), "Config")
        i = F(rt, "id")
        pre, post = p.pre(item, "OutboxItem"), p.post(item, "OutboxItem")
        rds = p.effects("return_data")
        rep.need("mark-returns", w, len(rds) == 1, "no single result")
        val = rds[0].a[0]
        val = val.a[0] if val.op == "borsh" else val
        sgn = [f.a[0] for f, v in p.p.facts.items() if v and f.op == "fld" and f.a[1] == "is_signer"]
        seeds = mk("pda", X(b"outbox_item_signer"), F(rt, "transceiver_address"))
        rep.ob("mark-authorised", w, any(p.same(key(s), seeds) for s in sgn), "caller is not checked to be the registered transceiver", p)
        rep.ob("mark-enabled", w, p.holds(tm.bit(F(cfg, "enabled_transceivers", "map"), i)), "disabled transceiver can release", p)
        d = p.decide(val)
        rep.need("mark-result-known", w, d is not None, f"result {val}")
        if d:
            rep.ob("mark-true-only-when-due", w, p.holds(le(F(pre, "release_timestamp"), now)), "reports released before its time", p)
            rep.ob("mark-not-before", w, p.decide(tm.bit(F(pre, "released", "map"), i)) is False, "reports released twice for one transceiver", p)
            rep.ob("mark-sets-bit", w, p.written(item, "OutboxItem") and p.same(F(post, "released", "map"), tm.setbit(F(pre, "released", "map"), i, tm.TRUE)),
                   f"released becomes {F(post, 'released', 'map')}", p)
        else:
            rep.ob("mark-false-when-delayed", w, p.decide(le(F(pre, "release_timestamp"), now)) is False, "reports delayed although due", p)
            rep.ob("mark-false-unchanged", w, p.same(post, pre), "changes a delayed item", p)
    props_fns.outbox(rep, now)
    rep.floor("release-marks", 1)
    rep.floor("mark-result-checked", 1)
    rep.floor("mark-sets-bit", 1)


def c12(rep):
    for p in rel_out(rep, MGR, TRX):
        ps = posts(p)
        if not ps:
            continue
        w = p.where
        item = p.one("OutboxItem")
        t = p.fullty(item, "OutboxItem")
        cfg = p.pre(p.one("Config"), "Config")
        mgr = summ.ident(MGR)
        for e, ins, metas in ps:
            got = F(ins, "payload")
            ok = False
            # the fields are immutable (C13), so any re-read of the same item will do
            vers = [y for y in tm.subterms(got) if y.op == "data" and y.a[0] is item] or [mk("data", item, t)]
            rep.ob("payload-one-snapshot", w, len(set(vers)) == 1, "payload mixes different reads of the item", p, e)
            o = vers[0]
            for src in (owner(item), mgr):
                inner = cat(key(item), F(o, "sender"), X(bytes.fromhex("004f994e5454")), be(F(o, "amount", "decimals"), 1), be(F(o, "amount", "amount"), 8),
                            F(cfg, "mint"), F(o, "recipient_address"), be(F(o, "recipient_chain", "id"), 2))
                want = cat(X(bytes.fromhex("9945ff10")), src, F(o, "recipient_ntt_manager"), X(bytes.fromhex("0091")), inner, X(b"\0\0"))
                ok = ok or p.same(got, want)
            rep.ob("payload-bytes", w, ok, f"posted payload {got}", p, e)
    rep.floor("payload-bytes", 2)


def c13(rep):
    for p in xfer(rep):
        x = Xfer(p)
        w = p.where
        it = x.item
        rep.ob("item-fresh", w, p.created(x.item_acc) and p.written(x.item_acc, "OutboxItem"), "outbox item is not freshly created and stored", p)
        rep.ob("item-sender", w, p.same(F(it, "sender"), F(x.srcd, "owner")), f"sender {F(it, 'sender')}", p)
        rep.ob("item-chain", w, p.same(F(it, "recipient_chain", "id"), x.chain), f"chain {F(it, 'recipient_chain')}", p)
        rep.ob("item-peer-of-chain", w, p.is_pda(x.peer_acc, [X(b"peer"), be(x.chain, 2)]), "peer of another chain", p)
        rep.ob("item-recipient-manager", w, p.same(F(it, "recipient_ntt_manager"), F(x.peer, "address")), f"{F(it, 'recipient_ntt_manager')}", p)
        rep.ob("item-recipient", w, p.same(F(it, "recipient_address"), x.to), f"{F(it, 'recipient_address')}", p)
        rep.ob("item-unreleased", w, p.same(F(it, "released", "map"), I(0)), f"{F(it, 'released')}", p)
        rep.ob("transceiver-available", w, p.decide(eq(F(x.cfg, "enabled_transceivers", "map"), I(0))) is False, "accepted although no transceiver could ever send it", p)
    for p in all_paths(rep, MGR, TRX, QTR):
        for e in p.effects("close"):
            rep.ob("item-never-closed", p.where, not any(tmatch(t, "OutboxItem") for t in p.tys.get(e.a[0], [p.ty.get(e.a[0], "?")])), "outbox item closed", p, e)
        for e in p.persists("OutboxItem"):
            if p.root in XFER and p.crate == MGR:
                continue
            a = e.a[0]
            pre, post = mk("data", a, e.a[1]), e.a[2]
            if post.op == "data" and post.a[0] is a:
                rep.ob("item-immutable", p.where, True)      # the contents as last read: nothing of ours written
                continue
            for n in ("amount", "sender", "recipient_chain", "recipient_ntt_manager", "recipient_address", "release_timestamp"):
                rep.ob("item-immutable", p.where, p.same(F(post, n), F(pre, n)), f"{n} of a stored outbox item changes", p, e)
            r = F(post, "released", "map")
            while r.op == "setbit" and p.decide(r.a[2]) is True:
                r = r.a[0]
            rep.ob("released-monotone", p.where, p.same(r, F(pre, "released", "map")), "a released mark is cleared", p, e)
        for a in p.accts("OutboxItem"):
            if p.created(a):
                rep.ob("item-creator", p.where, p.root in XFER, "outbox item created outside a transfer", p)
    rep.floor("item-fresh", 2)
    rep.floor("item-immutable", 3)


def c32(rep):
    """every wormhole message is posted from the program's emitter, finalised, with the fee paid"""
    n = 0
    for p in all_paths(rep, MGR, TRX, QTR, GOV):
        for e, ins, metas in posts(p):
            n += 1
            w = p.where
            ms = [m for m in tm.fields(metas)] if metas.op == "agg" else []
            rep.need("post-accounts", w, len(ms) == 9, "unexpected account list")
            em = F(ms[2], "pubkey")
            rep.ob("post-emitter", w, p.same(em, p.pda([X(b"emitter")])) and F(ms[2], "is_signer") is tm.TRUE, "message not posted from the program's emitter", p, e)
            acc = [x for x in tm.subterms(em) if x.op == "acc"]
            rep.ob("post-emitter-signs", w, bool(acc) and p.signs_for(e.kw["seeds"], acc[0]), "emitter seeds missing", p, e)
            prog = [f.a[0] for f, v in p.p.facts.items() if v and f.op == "program" and tmatch(f.a[1], "Wormhole")]
            rep.ob("post-core-bridge", w, any(p.same(F(e.kw["ix"], "program_id"), key(g)) for g in prog), "not posted to the verified core bridge program", p, e)
            fin = F(ins, "finality")
            rep.ob("post-finalised", w, fin.op == "agg" and fin.a[1] == "Finalized", f"finality {fin}", p, e)
            br = p.one("BridgeData")
            fee = F(p.pre(br, "BridgeData"), "config", "fee")
            pay = [x for x in p.effects("sys_transfer") if p.eff.index(x) < p.eff.index(e)]
            z = p.decide(eq(fee, I(0)))
            fc = F(ms[5], "pubkey")
            paid = len(pay) == 1 and p.same(pay[0].a[2], fee) and p.same(key(pay[0].a[1]), fc)
            rep.ob("post-fee", w, paid or (z is True and not pay), "the message fee is not paid to the fee collector before posting", p, e)
    rep.floor("post-emitter", 6)
