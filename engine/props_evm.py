"""The EVM contracts.

solint.py summarises every path of an external function of a contract to a successful return: the facts that
hold on it and, in order, what it does to storage and to other contracts.  The rules judge those summaries.
Parameters are named by position, so neither their names nor the split into helper functions matters."""
import multiprocessing, os, traceback
from lib import *
import sol, solint, summ
import terms as tm
from terms import T, I, B, X, S, mk, sym, fld, add, sub, mul, div, eq, lt, le, b_not, b_and, cat, TRUE, FALSE
from solint import SENDER, VALUE, NOW, CHAINID, THIS

REPO = os.environ.get("NTT_REPO", "/repo")
_unit = None
U64 = (1 << 64) - 1
ZERO32, ZERO20 = X(bytes(32)), X(bytes(20))


def unit():
    global _unit
    if _unit is None:
        _unit = sol.load(REPO + "/evm/src")
    return _unit


def arg(i):
    return sym(f"arg:{i}")


def entry_names(contract):
    return list(solint.entries(solint.Interp(unit(), contract)))


def summarised(rep, contract, name, fn=None, may_fail=False):
    """the successful paths of one external function (or of a library function)"""
    u = unit()
    if fn is None:
        if contract not in u.contracts:
            raise Broken("entry-point", contract, "contract no longer exists")
        fn = solint.entries(solint.Interp(u, contract)).get(name)
        if fn is None:
            raise Broken("entry-point", f"{contract}.{name}", "external function no longer exists")
    out, ip = solint.summarise_fn(u, contract, fn, args=[arg(i) for i in range(len(fn.params))])
    rep.analysed[f"{contract}.{name}"] = len(out)
    rep.steps += ip.steps
    rep.forks += ip.nforks
    rep.calls += ip.ncalls
    rep.fns |= set(getattr(ip, "visited", ()) or ())
    if not out and not may_fail:
        raise Broken("success-path", f"{contract}.{name}", "no successful path is left: the operation can never succeed")
    ps = []
    for i, (ret, st) in enumerate(out):
        p = P(summ.Path(ip, name, ret, st, i), contract, name)
        ps += split(p)
    for p in ps:
        p.loose = ip.loose
    return ps


def _task(job):
    pid, rule, contract, name = job
    r = Report(pid)
    try:
        ps = summarised(r, contract, name, may_fail=True)
        globals()[rule](r, ps, contract, name)
    except Broken as b:
        r.viol.setdefault(f"{b.rule} @ {b.where}", []).append((b.msg, None, None))
    for k, v in r.viol.items():
        r.viol[k] = [(m if p is None else m + " | " + "; ".join(p.show())[:1500], None, e if e is None else Loc(e.loc)) for m, p, e in v]
    r.samples = r.samples[:4]
    return r


class Loc:
    def __init__(self, loc):
        self.loc = loc


def run(rep, rule, jobs):
    """judge each entry point in a process of its own"""
    unit()
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8, initializer=deep) as pool:
        for r in pool.imap_unordered(_task, [(rep.pid, rule, c, n) for c, n in jobs], chunksize=1):
            rep.merge(r)


def deep():
    import sys
    sys.setrecursionlimit(100000)


# --------------------------------------------------------------- storage
def slot(name):
    return mk("slot", tm.sub(mk("from", mk("keccak", X(name)), "be", 32), I(1)))


def at(p, k):
    return mk("sidx", p, k)


def sf(p, f):
    return mk("sfld", p, f)


def ld(p):
    return mk("sload", p)


PEERS, ATT, SEQ = slot(b"ntt.peers"), slot(b"ntt.messageAttestations"), slot(b"ntt.messageSequence")
THRESH, INFOS, BITMAP = slot(b"ntt.threshold"), slot(b"ntt.transceiverInfos"), slot(b"ntt.transceiverBitmap")
ENABLED, REGISTERED, NUM = slot(b"ntt.enabledTransceivers"), slot(b"ntt.registeredTransceivers"), slot(b"ntt.numRegisteredTransceivers")
OUTLIM, INLIM = slot(b"ntt.outboundLimitParams"), slot(b"ntt.inboundLimitParams")
OUTQ, INQ = slot(b"ntt.outboundQueue"), slot(b"ntt.inboundQueue")
PAUSE, PAUSER = slot(b"Pause.pauseFlag"), slot(b"Pause.pauseRole")


def base(place):
    """(outermost place, field path)"""
    path = []
    while place.op in ("sidx", "sfld"):
        path.append(place.a[1])
        place = place.a[0]
    return place, path[::-1]


def flat(effs):
    for e in effs:
        if e.kind == "loop":
            for q in e.a[2]:
                yield from flat(q)
        else:
            yield e


def stores(p):
    """[(place, value, effect)] in order, loops included"""
    return [(e.a[0], e.a[1], e) for e in flat(p.eff) if e.kind == "sstore"]


def stores_under(p, root):
    return [x for x in stores(p) if base(x[0])[0] is root]


def final(p, place):
    """contents at the end"""
    v = ld(place)
    for pl, x, e in stores(p):
        if pl is place:
            v = x
    return v


def exts(p):
    return [e for e in flat(p.eff) if e.kind == "ext"]


def order(p):
    return list(flat(p.eff))


def paused(p):
    """None / True / False: what the path knows about the pause flag at its start"""
    return p.decide(eq(ld(sf(PAUSE, "_pauseFlag")), I(2), True))


def now64(p, v):
    return p.same(v, mk("trunc", NOW, "u64")) or p.same(v, NOW)


TOKEN, MODE = sym("imm:token"), sym("imm:mode")
DURATION, CHAIN = sym("imm:rateLimitDuration"), sym("imm:chainId")
RELEASES = ("safeTransfer", "transfer", "mint")


def is_token_decimals(t):
    return t.op == "dec" and t.a[0].op == "view" and t.a[0].a[0] == "call" and t.a[0].a[1] is TOKEN and "decimals()" in str(t.a[0].a[2])


def token_decimals(p):
    for t in list(p.p.facts) + [x for e in order(p) for x in list(e.a) + list(e.kw.values()) if isinstance(x, T)]:
        for x in tm.subterms(t):
            if is_token_decimals(x):
                return x
            if x.op == "ok" and x.a[0].op == "view" and is_token_decimals(mk("dec", x.a[0])):
                return mk("dec", x.a[0])
    return None


def amt(v):
    """the amount and the decimals of a packed TrimmedAmount"""
    return mk("shr", v, I(8)), tm.comm("band", v, I(255))


def unpacked(p, v):
    ip = p.p.ip
    ip.st = p.p.st
    return ip.shr(v, 8), ip.bits("&", v, I(255))


def scaled(p, a, f, t):
    """[(path, a given in f decimals, expressed in t decimals)]"""
    out = []
    for b, q in p.cases(eq(f, t, True)):
        if b:
            out.append((q, a))
            continue
        for b2, q2 in q.cases(lt(f, t)):
            out.append((q2, mul(a, pw(sub(t, f))) if b2 else div(a, pw(sub(f, t)))))
    return out


def pw(e):
    return I(10 ** e.a[0]) if e.op == "int" else mk("pow", I(10), e)


def trimmed(p, a, f, t):
    """[(path, amount, decimals)]: a in f decimals, cut to at most 8 and at most t decimals"""
    out = []
    for b, q in p.cases(le(f, t)):
        m = f if b else t
        for b2, q2 in q.cases(le(m, I(8))):
            d = m if b2 else I(8)
            out += [(q3, v, d) for q3, v in scaled(q2, a, f, d)]
    return out


def sl(t, a, b):
    return solint.bslice(t, I(a), I(b))


def num(t, n):
    return solint.frm(t, n)


MANAGERS = ("NttManager", "NttManagerNoRateLimiting")


def released(p):
    return [e for e in exts(p) if p.same(e.a[0], TOKEN) and e.a[1] in RELEASES]


def fargs(e):
    return list(tm.fields(e.kw["args"]))


def pays(rep, p, e, to, amount, rule, where):
    """the call pays exactly `amount` of the token to `to`, in the way of the mode"""
    a = fargs(e)
    for locking, q in p.cases(eq(MODE, I(0), True)):
        ok = e.a[1] in ("safeTransfer", "transfer") if locking else e.a[1] == "mint" and q.holds(eq(MODE, I(1), True))
        rep.ob(rule + "-mode", where, ok, f"{e.a[1]} is called in mode {'LOCKING' if locking else 'not LOCKING'}", q, e)
    rep.ob(rule + "-to", where, len(a) == 2 and p.same(a[0], to), f"the tokens go to {a[0]}, not to {to}", p, e)
    rep.ob(rule + "-amount", where, len(a) == 2 and p.same(a[1], amount), f"the amount is {a[1]}, not {amount}", p, e)


def digest_of(p, chain, msg):
    pl = fld(msg, "payload")
    return mk("keccak", cat(solint.tob(chain, 2), fld(msg, "id"), fld(msg, "sender"), solint.tob(mk("len", pl), 2), pl))


# --------------------------------------------------------------- C39 inbound
ATTEST, EXEC, COMPLETE_IN, CANCEL = "attestationReceived/3", "executeMsg/3", "completeInboundQueuedTransfer/1", "cancelOutboundQueuedTransfer/1"


def mask(x, y):
    return tm.comm("band", x, y)


def approved(votes):
    t = ld(sf(THRESH, "num"))
    return le(t, mk("popcount", mask(ld(sf(BITMAP, "bitmap")), votes))), lt(I(0), t)


def inbound(rep, ps, contract, name):
    for p in ps:
        w = p.where
        rel = released(p)
        att, inq = stores_under(p, ATT), stores_under(p, INQ)
        if name not in (ATTEST, EXEC):
            rep.ob("votes-only-by-attestation", w, not att, "the record of attestations is written here", p, att[0][2] if att else None)
            if name not in (COMPLETE_IN, CANCEL):
                rep.ob("release-only-inbound", w, not rel, "tokens are released here", p, rel[0] if rel else None)
            if name != COMPLETE_IN:
                rep.ob("inbound-queue-writers", w, not inq, "the inbound queue is written here", p, inq[0][2] if inq else None)
        if name in (ATTEST, EXEC):
            message(rep, p, name == ATTEST, rel, att, inq)
        elif name == COMPLETE_IN:
            queued_in(rep, p, rel, inq)


def message(rep, p, attest, rel, att, inq):
    w = p.where
    chain, src, msg = arg(0), arg(1), arg(2)
    A = at(ATT, digest_of(p, chain, msg))
    vp, ep = sf(A, "attestedTransceivers"), sf(A, "executed")
    votes, ex = [x for x in att if x[0] is vp], [x for x in att if x[0] is ep]
    rep.ob("not-paused", w, paused(p) is False, "the call succeeds while the manager is paused", p)
    rep.ob("own-record", w, len(votes) + len(ex) == len(att), "a record other than that of this message's digest is written: " + str([x[0] for x in att if x not in votes and x not in ex])[:300], p)
    cur = final(p, vp)
    if attest:
        info = at(INFOS, SENDER)
        bit = mk("shl", I(1), ld(sf(info, "index")))
        rep.ob("attester-enabled", w, p.holds(ld(sf(info, "enabled"))), "the caller need not be an enabled transceiver", p)
        rep.ob("peer", w, p.same(ld(sf(at(PEERS, chain), "peerAddress")), src), "the message need not come from the registered peer of its chain", p)
        rep.ob("one-vote", w, len(votes) == 1 and p.same(votes[0][1], tm.comm("bor", ld(vp), bit)), f"the caller's vote is recorded as {[x[1] for x in votes]}", p)
        rep.ob("vote-new", w, p.holds(eq(mask(ld(vp), bit), I(0), True)), "a transceiver can attest to the same message twice", p)
    else:
        rep.ob("no-vote", w, not votes, "attestations are changed without an attestation", p)
    many, pos = approved(cur)
    if not ex:
        rep.ob("unexecuted", w, not rel and not inq and not exts(p), "tokens move or a transfer is queued without the message being marked executed", p)
        if attest:
            q = p
            for c in (many, pos):
                q = q and q.refine(c)
            rep.ob("executes-when-approved", w, q is None or q.p.empty() or q.holds(ld(ep)), "an approved message that was not executed is not executed by the attestation", p)
        else:
            rep.ob("replay-quiet", w, p.holds(ld(ep)), "the call succeeds without executing a message that was not executed before", p)
        return
    rep.ob("executed-set", w, all(p.same(x[1], TRUE) for x in ex), "the executed flag is cleared", p, ex[0][2])
    rep.ob("executed-once", w, p.decide(ld(ep)) is False, "a message that was executed can be executed again", p, ex[0][2])
    rep.ob("approved", w, p.holds(many) and p.holds(pos), "a message is executed although the enabled transceivers that attested to it are fewer than the threshold (or the threshold is zero)", p, ex[0][2])
    seq = order(p)
    first = next((i for i, e in enumerate(seq) if e.kind == "ext"), len(seq))
    rep.ob("marked-before-calls", w, seq.index(ex[0][2]) < first, "another contract is called before the message is marked executed", p, ex[0][2])
    pl = fld(msg, "payload")
    rep.ob("transfer-payload", w, p.same(sl(pl, 0, 4), X(bytes.fromhex("994e5454"))), "the payload need not be a transfer", p)
    rep.ob("target-chain", w, p.same(num(sl(pl, 77, 79), 2), CHAIN), "a transfer to another chain is executed here", p)
    rep.ob("fork", w, not rel or p.same(CHAINID, sym("imm:evmChainId")), "tokens are released on a fork of the chain", p)
    rep.ob("one-outcome", w, len(rel) + bool(inq) == 1 and len(exts(p)) == len(rel), f"{len(rel)} releases and {len(inq)} queue writes: a message has exactly one outcome", p)
    to = solint.from_wh(sl(pl, 45, 77)) if hasattr(solint, "from_wh") else tm.call("fromWormholeFormat", sl(pl, 45, 77))
    a, f, T_ = num(sl(pl, 5, 13), 8), num(sl(pl, 4, 5), 1), token_decimals(p)
    if T_ is None:
        rep.ob("decimals", w, False, "the token's decimals are not consulted", p)
        return
    for q, x in scaled(p, a, f, T_):
        for q, y, m in trimmed(q, x, T_, T_):
            if rel:
                for q, z in scaled(q, y, m, T_):
                    pays(rep, q, rel[0], to, z, "release", w)
            else:
                Q = at(INQ, digest_of(p, chain, msg))
                got = {base(pl_)[1][-1]: v for pl_, v, e in inq if pl_.a[0] is Q}
                rep.ob("queued-fields", w, set(got) == {"amount", "txTimestamp", "recipient"} and len(got) == len(inq), f"the queue entry is written as {[x_[0] for x_ in inq]}", q)
                if len(got) == 3:
                    va, vd = unpacked(q, got["amount"])
                    rep.ob("queued-amount", w, q.same(va, y) and q.same(vd, m), f"the queued amount is {va} with {vd} decimals", q)
                    rep.ob("queued-recipient", w, q.same(got["recipient"], to), f"the queued recipient is {got['recipient']}", q)
                    rep.ob("queued-time", w, now64(q, got["txTimestamp"]), f"the queued time is {got['txTimestamp']}", q)


def queued_in(rep, p, rel, inq):
    w = p.where
    Q = at(INQ, arg(0))
    ts = ld(sf(Q, "txTimestamp"))
    rep.ob("not-paused", w, paused(p) is False, "the call succeeds while the manager is paused", p)
    rep.ob("queue-exists", w, p.holds(b_not(eq(ts, I(0), True))), "a transfer that is not queued is released", p)
    rep.ob("queue-delay", w, p.holds(le(add(ts, DURATION), NOW)), "a queued transfer is released before its delay has passed", p)
    rep.ob("queue-own", w, bool(inq) and all(x[0].a[0] is Q for x in inq), "another queue entry is written", p)
    rep.ob("queue-removed", w, p.same(final(p, sf(Q, "txTimestamp")), I(0)), "the released transfer stays in the queue", p)
    seq = order(p)
    first = next((i for i, e in enumerate(seq) if e.kind == "ext"), len(seq))
    rep.ob("queue-removed-first", w, any(x[0] is sf(Q, "txTimestamp") and seq.index(x[2]) < first for x in inq), "another contract is called while the transfer is still queued", p)
    rep.ob("fork", w, p.same(CHAINID, sym("imm:evmChainId")), "tokens are released on a fork of the chain", p)
    rep.ob("one-outcome", w, len(rel) == 1 and len(exts(p)) == 1, "the transfer is not released by exactly one call", p)
    T_ = token_decimals(p)
    if rel and T_ is not None:
        a, d = unpacked(p, ld(sf(Q, "amount")))
        for q, z in scaled(p, a, d, T_):
            pays(rep, q, rel[0], ld(sf(Q, "recipient")), z, "queue-release", w)


def manager_jobs(names=None):
    out = []
    for c in MANAGERS:
        for n in entry_names(c):
            if names is None or n in names:
                out.append((c, n))
    return out


def c39(rep):
    have = {n for _, n in manager_jobs()}
    for n in (ATTEST, EXEC, COMPLETE_IN):
        rep.ob("entry-point", n, n in have, "external function no longer exists")
    run(rep, "inbound", sorted(manager_jobs(), key=lambda j: not j[1].startswith(("transfer/", "att", "exec"))))
    rep.floor("one-vote", 8)
    rep.floor("release-amount", 12)
    rep.floor("queued-amount", 2)
    rep.floor("queue-release-amount", 2)


# --------------------------------------------------------------- C40 outbound
TRANSFERS, COMPLETE_OUT = ("transfer/3", "transfer/6"), "completeOutboundQueuedTransfer/1"
QUEUE_FIELDS = ("recipient", "refundAddress", "amount", "txTimestamp", "recipientChain", "sender", "transceiverInstructions")


def balance_epoch(t):
    """n when t is the contract's own token balance as seen after n external calls"""
    if t.op == "dec":
        t = t.a[0]
        if t.op == "view" and t.a[0] == "call" and t.a[1] is TOKEN and "balanceOf" in str(t.a[2]) and THIS in tm.subterms(t.a[2]):
            return t.a[3].a[0]
    elif t.op == "view" and t.a[0] == "balanceOf" and t.a[1] is TOKEN and list(tm.fields(t.a[2])) == [THIS]:
        return t.a[3].a[0]
    return None


def balances(p):
    out = {}
    for t in list(p.p.facts) + [x for e in order(p) for x in list(e.a) + list(e.kw.values()) if isinstance(x, T)]:
        for x in tm.subterms(t):
            n = balance_epoch(x)
            if n is not None:
                out[n] = x
    return out


def guarded(rep, p):
    """reentrancy guard: not entered before, set before the first call"""
    w = p.where
    st = [x for x in stores(p) if base(x[0])[1][-1:] == ["_status"]]
    seq = order(p)
    first = next((i for i, e in enumerate(seq) if e.kind == "ext"), len(seq))
    ok = bool(st) and p.same(st[0][1], I(2)) and seq.index(st[0][2]) < first and p.holds(b_not(eq(ld(st[0][0]), I(2), True))) and p.same(st[-1][1], I(1))
    rep.ob("reentrancy-guard", w, ok, "the function calls other contracts without the reentrancy guard", p)


def outbound(rep, ps, contract, name):
    n = 0
    for p in ps:
        w = p.where
        seqs, outq = stores_under(p, SEQ), stores_under(p, OUTQ)
        pulls = [e for e in exts(p) if p.same(e.a[0], TOKEN) and e.a[1] not in RELEASES]
        sends = [e for e in exts(p) if e.a[1] == "sendMessage"]
        if name not in TRANSFERS:
            rep.ob("sequence-writers", w, not seqs, "the message sequence is changed here", p, seqs[0][2] if seqs else None)
            rep.ob("pull-only-transfer", w, not pulls, "tokens are taken or burned here", p, pulls[0] if pulls else None)
            if name not in (COMPLETE_OUT, CANCEL):
                rep.ob("outbound-queue-writers", w, not outq, "the outbound queue is written here", p, outq[0][2] if outq else None)
            if name != COMPLETE_OUT:
                rep.ob("send-only-transfer", w, not sends, "a message is sent here", p, sends[0] if sends else None)
        if name in TRANSFERS:
            transfer(rep, p, name, seqs, outq, pulls)
        elif name == COMPLETE_OUT:
            dequeue(rep, p, outq)
        elif name == CANCEL:
            cancel(rep, p, outq)
        elif name == "quoteDeliveryPrice/2":
            quoted(rep, p)


def quoted(rep, p):
    """the quote is that of a transfer with the same instructions"""
    w = p.where
    n = mk("len", ld(ENABLED))
    r = p.p.ret
    ok = len(r) == 2 and r[0].op == "tab" and r[1].op == "sum" and p.same(r[0].a[1], n) and p.same(r[1].a[1], n)
    ok = ok and tm.subst(r[0].a[2], lambda y: r[1].a[0] if y is r[0].a[0] else None) is r[1].a[2]
    rep.ob("quote", w, ok, "the quote is not one price for every enabled transceiver, with their sum", p)
    if ok:
        i, v = r[1].a[0], r[1].a[2]
        tr = mk("idx", ld(ENABLED), i)
        a = list(tm.fields(v.a[2])) if v.op == "view" and v.a[0] == "quoteDeliveryPrice" else []
        rep.ob("quote-of", w, len(a) == 2 and p.same(v.a[1], tr) and p.same(a[0], arg(0)), f"the price is {v}", p)
        if len(a) == 2:
            ins = a[1]
            good = ins.op == "agg" or ins.op == "idx" and p.same(ins.a[1], ld(sf(at(INFOS, tr), "index"))) and p.same(solint.alen(ins.a[0]), mk("len", ld(REGISTERED)))
            rep.ob("quote-instruction", w, good, "the instructions quoted for are not one per registered transceiver, each taken at the transceiver's own index (a transfer's are)", p)


def transfer(rep, p, name, seqs, outq, pulls):
    w = p.where
    amount, chain, to = arg(0), arg(1), arg(2)
    refund, queue, instr = (arg(3), arg(4), arg(5)) if name == "transfer/6" else (to, FALSE, X(b"\0"))
    rep.ob("not-paused", w, paused(p) is False, "the call succeeds while the manager is paused", p)
    guarded(rep, p)
    rep.ob("nonzero", w, p.decide(eq(amount, I(0), True)) is False and p.decide(eq(to, ZERO32)) is False and p.decide(eq(refund, ZERO32)) is False, "a transfer of nothing, or to or with a refund to nobody, is accepted", p)
    ex = exts(p)
    k = next((i for i, e in enumerate(ex) if e in pulls), None)
    e = ex[k] if k is not None else None
    ok = e is not None and e.a[1] in ("safeTransferFrom", "transferFrom") and [p.same(x, y) for x, y in zip(fargs(e), (SENDER, THIS, amount))] == [True] * 3
    rep.ob("pulled-from-caller", w, ok, "the tokens are not pulled from the caller to the contract for the amount given", p, e)
    if e is None:
        return
    bal = balances(p)
    if k not in bal or k + 1 not in bal:
        rep.ob("amount-received", w, False, "the amount received is not measured as the difference of the balances around the call", p, e)
        return
    D = sub(bal[k + 1], bal[k])
    burning = p.decide(eq(MODE, I(1), True))
    if burning is None:
        rep.ob("mode", w, False, "the mode is not consulted", p)
        return
    rest = [x for x in pulls if x is not e]
    if burning:
        rep.ob("burned", w, len(rest) == 1 and ex[k + 1] is rest[0] and rest[0].a[1] == "burn" and p.same(fargs(rest[0])[0], D), "the amount received is not what is burned", p)
        rep.ob("burn-exact", w, k + 2 in bal and p.holds(eq(bal[k], bal[k + 2], True)), "a burn that leaves a different balance is accepted", p)
    else:
        rep.ob("locked", w, not rest, "tokens are taken out of custody by a transfer", p)
    T_ = token_decimals(p)
    PD = ld(sf(at(PEERS, chain), "tokenDecimals"))
    sp = sf(SEQ, "num")
    seq = ld(sp)
    rep.ob("peer-decimals", w, p.decide(eq(PD, I(0), True)) is False, "a transfer to a chain without peer is accepted", p)
    rep.ob("sequence", w, len(seqs) == 1 and seqs[0][0] is sp and p.same(seqs[0][1], add(seq, I(1))) and len(p.p.ret) == 1 and p.same(p.p.ret[0], seq), "the transfer does not use and advance the sequence by exactly one", p)
    for q, y, m in trimmed(p, D, T_, PD):
        for q, z in scaled(q, y, m, T_):
            rep.ob("no-dust", w, q.same(z, D), "an amount that the peer cannot represent is taken", q)
        rep.ob("fits", w, q.holds(le(y, I(U64))), "an amount of more than 64 bits is cut", q)
        if outq:
            Q = at(OUTQ, seq)
            got = {base(x[0])[1][-1]: x[1] for x in outq if x[0].a[0] is Q}
            rep.ob("queued-fields", w, set(got) == set(QUEUE_FIELDS) and len(got) == len(outq), "the queue entry is not the transfer's own", q)
            if set(got) == set(QUEUE_FIELDS):
                a, d = unpacked(q, got["amount"])
                rep.ob("queued-amount", w, q.same(a, y) and q.same(d, m), f"the queued amount is {a} with {d} decimals", q)
                for f, v in (("recipient", to), ("refundAddress", refund), ("recipientChain", chain), ("sender", SENDER), ("transceiverInstructions", instr)):
                    rep.ob("queued-" + f, w, q.same(got[f], v), f"{f} of the queue entry is {got[f]}", q)
                rep.ob("queued-time", w, now64(q, got["txTimestamp"]), "the queue entry has another time", q)
            rep.ob("queue-asked", w, q.same(queue, TRUE) if queue is FALSE else q.holds(queue), "a transfer is queued although the caller did not ask for it", q)
            rep.ob("fork", w, q.same(CHAINID, sym("imm:evmChainId")), "tokens are taken on a fork of the chain", q)
            more = [x for x in ex if x not in pulls]
            rep.ob("queue-refund", w, len(more) == 1 and refunds(q, more[0], VALUE), "the fee of a queued transfer is not returned", q)
        else:
            rep.ob("only-one", w, True)
            sent(rep, q, chain, to, refund, SENDER, y, m, seq, [x for x in ex if x not in pulls])


def refunds(p, e, v):
    return p.same(e.a[0], SENDER) and e.a[1] == "call" and p.same(e.kw["value"], v)


def sent(rep, p, chain, to, refund, sender, y, m, seq, more):
    """the message goes once to every enabled transceiver, with its own fee"""
    w = p.where
    rep.ob("fork", w, p.same(CHAINID, sym("imm:evmChainId")), "a message is sent on a fork of the chain", p)
    EN = ld(ENABLED)
    n = mk("len", EN)
    peer = ld(sf(at(PEERS, chain), "peerAddress"))
    rep.ob("peer-set", w, p.decide(eq(peer, ZERO32)) is False, "a message is sent to a chain without peer", p)
    rep.ob("some-transceiver", w, p.decide(eq(n, I(0), True)) is False, "a transfer is sent through no transceiver", p)
    loops = [e for e in p.eff if e.kind == "loop" and any(x.kind in ("ext", "sstore") for x in flat([e]))]
    body = list(flat(loops[:1]))
    ok = len(loops) == 1 and p.same(loops[0].a[1], n) and len(loops[0].a[2]) == 1 and len(body) == 1
    rep.ob("every-transceiver", w, ok, f"the message is not sent once to every enabled transceiver: {[(str(x.a[1]), len(x.a[2])) for x in loops]}", p)
    if not ok:
        return
    i, e = loops[0].a[0], body[0]
    tr = mk("idx", EN, i)
    a = fargs(e)
    rep.ob("sent-to", w, p.same(e.a[0], tr) and e.a[1] == "sendMessage" and len(a) == 5, f"the message is handed to {e.a[0]}.{e.a[1]}", p, e)
    if len(a) != 5:
        return
    payload = cat(X(bytes.fromhex("994e5454")), solint.tob(m, 1), solint.tob(y, 8), X(bytes(12)), TOKEN, to, solint.tob(chain, 2))
    want = cat(solint.tob(seq, 32), X(bytes(12)), sender, X(b"\0\x4f"), payload)
    rep.ob("message", w, p.same(a[2], want), f"the message sent is {a[2]}, not {want}", p, e)
    rep.ob("message-chain", w, p.same(a[0], chain), f"the message goes to chain {a[0]}", p, e)
    rep.ob("message-peer", w, p.same(a[3], peer), f"the recipient manager is {a[3]}", p, e)
    rep.ob("message-refund", w, p.same(a[4], refund), f"the refund goes to {a[4]}", p, e)
    # the instruction is the one at the transceiver's own index, out of one per registered transceiver
    ins = a[1]
    idx = ld(sf(at(INFOS, tr), "index"))
    good = ins.op == "agg" or ins.op == "idx" and p.same(ins.a[1], idx) and p.same(solint.alen(ins.a[0]), mk("len", ld(REGISTERED)))
    rep.ob("instruction", w, good, f"the transceiver is given the instruction {ins}", p, e)
    v = e.kw["value"]
    good = v.op == "view" and v.a[0] == "quoteDeliveryPrice" and p.same(v.a[1], tr) and [p.same(s, t) for s, t in zip(tm.fields(v.a[2]), (chain, ins))] == [True] * 2
    rep.ob("fee", w, good, f"the transceiver is paid {v}, not its own quote", p, e)
    if not good:
        return
    tot = None
    for t in list(p.p.facts):
        for x in tm.subterms(t):
            if x.op == "sum" and p.same(x.a[1], n) and tm.subst(x.a[2], lambda y: i if y is x.a[0] else None) is v:
                tot = x
    rep.ob("fee-total", w, tot is not None and p.holds(le(tot, VALUE)), "the fees may exceed what the caller paid", p)
    if tot is None:
        return
    more = [x for x in more if x is not e]
    for zero, q in p.cases(eq(VALUE, tot, True)):
        ok = not more or len(more) == 1 and refunds(q, more[0], I(0)) if zero else len(more) == 1 and refunds(q, more[0], sub(VALUE, tot))
        rep.ob("excess-refunded", w, ok, "the excess fee is not returned to the caller exactly", q)
    ts = [x for x in p.eff if x.kind == "emit" and x.a[0] == "TransferSent" and len(fargs(x)) == 1]
    rep.ob("digest-event", w, len(ts) == 1 and p.same(fargs(ts[0])[0], mk("keccak", cat(solint.tob(CHAIN, 2), want))), "the digest announced is not that of the message", p)


def dequeue(rep, p, outq):
    w = p.where
    Q = at(OUTQ, arg(0))
    q_ = lambda f: ld(sf(Q, f))
    rep.ob("not-paused", w, paused(p) is False, "the call succeeds while the manager is paused", p)
    guarded(rep, p)
    rep.ob("queue-exists", w, p.decide(eq(q_("txTimestamp"), I(0), True)) is False, "a transfer that is not queued is sent", p)
    rep.ob("queue-delay", w, p.holds(le(add(q_("txTimestamp"), DURATION), NOW)), "a queued transfer is sent before its delay has passed", p)
    removed(rep, p, Q, outq)
    rep.ob("sequence-returned", w, len(p.p.ret) == 1 and p.same(p.p.ret[0], arg(0)), "another sequence is returned", p)
    a, d = unpacked(p, q_("amount"))
    sent(rep, p, q_("recipientChain"), q_("recipient"), q_("refundAddress"), q_("sender"), a, d, arg(0), exts(p))


def removed(rep, p, Q, qs):
    w = p.where
    seq = order(p)
    first = next((i for i, e in enumerate(seq) if e.kind == "ext"), len(seq))
    rep.ob("queue-own", w, bool(qs) and all(x[0].a[0] is Q for x in qs), "another queue entry is written", p)
    rep.ob("queue-removed", w, p.same(final(p, sf(Q, "txTimestamp")), I(0)), "the transfer stays in the queue", p)
    rep.ob("queue-removed-first", w, any(x[0] is sf(Q, "txTimestamp") and seq.index(x[2]) < first for x in qs), "another contract is called while the transfer is still queued", p)


def cancel(rep, p, outq):
    w = p.where
    Q = at(OUTQ, arg(0))
    q_ = lambda f: ld(sf(Q, f))
    rep.ob("not-paused", w, paused(p) is False, "the call succeeds while the manager is paused", p)
    rep.ob("queue-exists", w, p.decide(eq(q_("txTimestamp"), I(0), True)) is False, "a transfer that is not queued is cancelled", p)
    rep.ob("cancel-by-sender", w, p.same(SENDER, q_("sender")), "someone other than the sender cancels a transfer", p)
    removed(rep, p, Q, outq)
    rel = released(p)
    rep.ob("one-outcome", w, len(rel) == 1 and len(exts(p)) == 1, "the tokens are not returned by exactly one call", p)
    rep.ob("fork", w, p.same(CHAINID, sym("imm:evmChainId")), "tokens are released on a fork of the chain", p)
    a, d = unpacked(p, q_("amount"))
    T_ = token_decimals(p)
    if rel and T_ is not None:
        for q, z in scaled(p, a, d, T_):
            pays(rep, q, rel[0], SENDER, z, "cancel", w)


def c40(rep):
    have = {n for _, n in manager_jobs()}
    for n in TRANSFERS + (COMPLETE_OUT, CANCEL):
        rep.ob("entry-point", n, n in have, "external function no longer exists")
    run(rep, "outbound", sorted(manager_jobs(), key=lambda j: not j[1].startswith(("transfer/", "att", "exec"))))
    rep.floor("message", 20)
    rep.floor("queued-amount", 2)
    rep.floor("cancel-amount", 2)
    rep.floor("excess-refunded", 20)
    rep.floor("burned", 10)
    rep.floor("locked", 10)
    rep.floor("quote-instruction", 2)


# --------------------------------------------------------------- C41 rate limits
SET_OUT, SET_IN, SET_PEER, INIT = "setOutboundLimit/1", "setInboundLimit/2", "setPeer/4", "initialize/0"


def params(L):
    return ld(sf(L, "currentCapacity")), ld(sf(L, "limit")), ld(sf(L, "lastTxTimestamp"))


def capacity(p, L):
    """[(path, amount, decimals)]: what limiter L lets through now"""
    c, l, ts = params(L)
    ca, cd = unpacked(p, c)
    la, _ = unpacked(p, l)
    out = []
    for none, q in p.cases(eq(DURATION, I(0), True)):
        if none:
            out.append((q, I(U64), cd))
            continue
        v = add(ca, div(mul(sub(NOW, ts), la), DURATION))
        out += [(q2, v if b else la, cd) for b, q2 in q.cases(le(v, la))]
    return out


def limiter_stores(p):
    return stores_under(p, OUTLIM) + stores_under(p, INLIM)


def consumed(rep, p, L, x, m, rule):
    w = p.where
    for q, c, d in capacity(p, L):
        rep.ob(rule + "-enough", w, q.holds(le(x, c)), "more than the capacity goes through", q)
        a, dd = unpacked(q, final(q, sf(L, "currentCapacity")))
        rep.ob(rule + "-taken", w, q.same(a, sub(c, x)) and q.same(dd, d) and q.same(m, d), f"the capacity left is {a} (decimals {dd}), not {sub(c, x)}", q)
        rep.ob(rule + "-time", w, now64(q, final(q, sf(L, "lastTxTimestamp"))), "the time of the transfer is not recorded", q)


def refilled(rep, p, L, x, m, rule):
    w = p.where
    la, ld_ = unpacked(p, params(L)[1])
    for q, c, d in capacity(p, L):
        a, dd = unpacked(q, final(q, sf(L, "currentCapacity")))
        rep.ob(rule + "-refill", w, is_min(q, a, la, add(c, x)) and q.same(dd, d) and q.same(m, d), f"the capacity after the refill is {a} (decimals {dd}), not the smaller of the limit and {add(c, x)}", q)
        rep.ob(rule + "-time", w, now64(q, final(q, sf(L, "lastTxTimestamp"))), "the time of the refill is not recorded", q)


def bound(p, t):
    """upper bound of a non-negative term, block times being below 2^64"""
    if t.op == "int":
        return t.a[0]
    if t is NOW:
        return U64
    if t.op == "lin":
        c, m = tm.lin(t)
        return max(c, 0) + sum(v * bound(p, x) for x, v in m.items() if v > 0)
    if t.op == "mul":
        r = 1
        for x in t.a:
            r *= bound(p, x)
        return r
    if t.op == "div":
        return bound(p, t.a[0])
    hi = p.p.ip.range_of(p.p.st, t)[1]
    return 1 << 256 if hi is None else hi


def unchecked(rep, p):
    """arithmetic in unchecked blocks that could wrap"""
    for op, a, b, loc in p.loose:
        w = f"{loc[2]}"
        if op == "-":
            rep.ob("unchecked", w, a is NOW and b.op == "sload" and base(b.a[0])[1][-1:] == ["lastTxTimestamp"], f"unchecked {a} - {b} can wrap", p)
        else:
            r = bound(p, a) * bound(p, b) if op == "*" else bound(p, a) + bound(p, b)
            rep.ob("unchecked", w, r < 1 << 256, f"unchecked {a} {op} {b} can wrap", p)


def limits(rep, ps, contract, name):
    if ps:
        unchecked(rep, ps[0])
    norl = contract == "NttManagerNoRateLimiting"
    for p in ps:
        w = p.where
        ls = limiter_stores(p)
        inq, outq = stores_under(p, INQ), stores_under(p, OUTQ)
        fields = {base(x[0])[1][-1] for x in ls}
        if name not in (SET_OUT, SET_IN, SET_PEER, INIT):
            rep.ob("limit-writers", w, "limit" not in fields, "a limit is changed here", p)
        if norl:
            rep.ob("unlimited", w, not ls and not any(e.kind == "sstore" and False for e in p.eff), "the contract without rate limits keeps capacities", p)
            if name in (ATTEST, EXEC) + TRANSFERS:
                rep.ob("unlimited-immediate", w, not inq and not outq, "a transfer is queued by the contract without rate limits", p)
            continue
        if name in (ATTEST, EXEC):
            limit_in(rep, p, ls, inq)
        elif name in TRANSFERS:
            limit_out(rep, p, name, ls, outq)
        elif name in (SET_OUT, SET_IN, SET_PEER):
            L = OUTLIM if name == SET_OUT else at(INLIM, arg(1) if name == SET_IN else arg(0))
            set_limit(rep, p, L, arg(0) if name != SET_PEER else arg(3), ls)
        elif name == INIT:
            T_ = token_decimals(p)
            rep.ob("initial-limit", w, bool(ls) and all(x[0].a[0] is OUTLIM for x in ls) and T_ is not None, "initialisation sets other limits", p)
            if T_ is not None and ls:
                for b, q in p.cases(le(T_, I(8))):
                    a, d = unpacked(q, final(q, sf(OUTLIM, "limit")))
                    rep.ob("initial-limit-value", w, q.same(a, I(U64)) and q.same(d, T_ if b else I(8)), f"the initial outbound limit is {a} with {d} decimals", q)
        elif name in ("getCurrentOutboundCapacity/0", "getCurrentInboundCapacity/1"):
            T_ = token_decimals(p)
            for q, c, d in capacity(p, OUTLIM if name.endswith("/0") else at(INLIM, arg(0))):
                for q, z in scaled(q, c, d, T_):
                    rep.ob("capacity-view", w, q.same(p.p.ret[0], z), f"the capacity reported is {p.p.ret[0]}, not {z}", q)
        else:
            rep.ob("capacity-writers", w, not ls, "a capacity is changed here", p)


def limit_in(rep, p, ls, inq):
    w = p.where
    chain, msg = arg(0), arg(2)
    ex = [x for x in stores_under(p, ATT) if base(x[0])[1][-1] == "executed"]
    L = at(INLIM, chain)
    if not ex:
        rep.ob("capacity-untouched", w, not ls, "a capacity is changed by a message that is not executed", p)
        return
    pl, T_ = fld(msg, "payload"), token_decimals(p)
    for q, x in scaled(p, num(sl(pl, 5, 13), 8), num(sl(pl, 4, 5), 1), T_):
        for q, y, m in trimmed(q, x, T_, T_):
            for none, q in q.cases(eq(DURATION, I(0), True)):
                if none:
                    rep.ob("no-duration", w, not ls and not inq, "without a rate limit a transfer is queued or a capacity changed", q)
                elif inq:
                    rep.ob("queued-untouched", w, not ls, "a queued transfer takes capacity", q)
                    for q2, c, d in capacity(q, L):
                        rep.ob("queued-limited", w, q2.holds(lt(c, y)), "a transfer within the capacity is queued", q2)
                else:
                    rep.ob("own-limits", w, {x_[0].a[0] for x_ in ls} == {L, OUTLIM}, "other limits than the source chain's and the outbound one are changed", q)
                    consumed(rep, q, L, y, m, "inbound")
                    refilled(rep, q, OUTLIM, y, m, "outbound")


def limit_out(rep, p, name, ls, outq):
    w = p.where
    chain = arg(1)
    L = at(INLIM, chain)
    T_, PD = token_decimals(p), ld(sf(at(PEERS, chain), "tokenDecimals"))
    k = next((i for i, e in enumerate(exts(p)) if p.same(e.a[0], TOKEN)), 0)
    bal = balances(p)
    if k not in bal or k + 1 not in bal:
        rep.ob("amount-received", w, False, "the amount received is not measured", p)
        return
    for q, y, m in trimmed(p, sub(bal[k + 1], bal[k]), T_, PD):
        for b, q in q.cases(le(T_, I(8))):
            t = T_ if b else I(8)
            for q, x in scaled(q, y, m, t):
                for none, q in q.cases(eq(DURATION, I(0), True)):
                    if none:
                        rep.ob("no-duration", w, not ls and not outq, "without a rate limit a transfer is queued or a capacity changed", q)
                    elif outq:
                        rep.ob("queued-untouched", w, not ls, "a queued transfer takes capacity", q)
                        for q2, c, d in capacity(q, OUTLIM):
                            rep.ob("queued-limited", w, q2.holds(lt(c, x)), "a transfer within the capacity is queued", q2)
                    else:
                        rep.ob("own-limits", w, {x_[0].a[0] for x_ in ls} == {L, OUTLIM}, "other limits than the destination chain's and the outbound one are changed", q)
                        consumed(rep, q, OUTLIM, x, t, "outbound")
                        refilled(rep, q, L, x, t, "inbound")


def set_limit(rep, p, L, amount, ls):
    w = p.where
    T_ = token_decimals(p)
    rep.ob("set-own", w, bool(ls) and all(x[0].a[0] is L for x in ls), "another limit is changed", p)
    if T_ is None:
        rep.ob("decimals", w, False, "the token's decimals are not consulted", p)
        return
    oa, od = unpacked(p, params(L)[1])
    for q, y, m in trimmed(p, amount, T_, T_):
        la, ldd = unpacked(q, final(q, sf(L, "limit")))
        rep.ob("set-limit", w, q.same(la, y) and q.same(ldd, m), f"the limit becomes {la} with {ldd} decimals", q)
        rep.ob("set-time", w, now64(q, final(q, sf(L, "lastTxTimestamp"))), "the time of the change is not recorded", q)
        a, d = unpacked(q, final(q, sf(L, "currentCapacity")))
        for null, q in q.cases(b_and(eq(oa, I(0), True), eq(od, I(0), True))):
            if null:
                rep.ob("set-first", w, q.same(a, y) and q.same(d, m), f"the capacity of a new limit is {a}", q)
                continue
            for q2, c, cd in capacity(q, L):
                for b, q3 in q2.cases(le(oa, y)):
                    v = add(c, sub(y, oa))
                    if b:
                        rep.ob("set-raise", w, q3.same(a, v) and q3.same(d, cd), f"raising the limit leaves the capacity {a}, not {v}", q3)
                    else:
                        for b2, q4 in q3.cases(le(v, I(0))):
                            rep.ob("set-lower", w, q4.same(a, I(0) if b2 else v) and q4.same(d, cd), f"lowering the limit leaves the capacity {a}, not {v}", q4)
                    rep.ob("set-within", w, q3.holds(le(a, y)), "the capacity exceeds the new limit", q3)


def c41(rep):
    have = {n for _, n in manager_jobs()}
    for n in TRANSFERS + (ATTEST, EXEC, SET_OUT, SET_IN, SET_PEER):
        rep.ob("entry-point", n, n in have, "external function no longer exists")
    run(rep, "limits", sorted(manager_jobs(), key=lambda j: not j[1].startswith(("transfer/", "att", "exec"))))
    for r, n in (("inbound-taken", 20), ("outbound-refill", 20), ("outbound-taken", 20), ("inbound-refill", 20), ("queued-limited", 10), ("set-limit", 6), ("set-raise", 3), ("set-lower", 3), ("set-first", 3), ("capacity-view", 4), ("unchecked", 6)):
        rep.floor(r, n)


# --------------------------------------------------------------- C42 administration
CONTRACTS = MANAGERS + ("WormholeTransceiver",)
WT = "WormholeTransceiver"
WPEERS, CONSUMED = slot(b"whTransceiver.peers"), slot(b"whTransceiver.consumedVAAs")
RELAY, SPECIAL, EVMIDS = slot(b"whTransceiver.relayingEnabledChains"), slot(b"whTransceiver.specialRelayingEnabledChains"), slot(b"whTransceiver.evmChainIds")
MIGRATING, MIGRATES = slot(b"ntt.migrating"), slot(b"ntt.migratesImmutables")
# state that callers without a role may change, under the rules of C39 to C41 and C43
OPEN = {ATT, SEQ, OUTQ, INQ, CONSUMED}
_owner = {}


def owner_place(contract):
    """where the owner is kept, by what owner() returns"""
    if contract not in _owner:
        ps = summarised(Report("-"), contract, "owner/0")
        r = ps[0].p.ret[0] if len(ps) == 1 else None
        if r is None or r.op != "sload":
            raise Broken("owner", contract, "owner() does not return a stored address")
        _owner[contract] = r.a[0]
    return _owner[contract]


def admin(rep, ps, contract, name):
    own = owner_place(contract)
    pauser = sf(PAUSER, "_pauser")
    for p in ps:
        w = p.where
        is_owner = p.same(SENDER, ld(own))
        is_pauser = p.same(SENDER, ld(pauser))
        init = name == INIT
        for place, v, e in stores(p):
            root, path = base(place)
            if root in OPEN or path[-1:] == ["_status"]:
                continue
            if root in (OUTLIM, INLIM) and path[-1] in ("currentCapacity", "lastTxTimestamp") and name in (ATTEST, EXEC) + TRANSFERS:
                continue
            what = f"{e.loc[2]} writes {place}"
            if init:
                rep.ob("initialise-by-deployer", w, p.same(SENDER, sym("imm:deployer")), what + " and the caller need not be the deployer", p, e)
            elif name == "migrate/0":
                rep.ob("migrate-in-upgrade", w, p.holds(ld(sf(MIGRATING, "isMigrating"))), what + " outside an upgrade", p, e)
            elif place is sf(PAUSE, "_pauseFlag"):
                if p.same(v, I(2)):
                    rep.ob("pause-role", w, is_owner or is_pauser, what + " and the caller is neither the owner nor the pauser", p, e)
                else:
                    rep.ob("unpause-owner", w, is_owner and p.same(v, I(1)), what + " and the caller is not the owner", p, e)
            elif place is pauser:
                rep.ob("pauser-role", w, is_owner or is_pauser, what + " and the caller is neither the owner nor the pauser", p, e)
            elif place is own and contract == WT and name == "transferTransceiverOwnership/1":
                rep.ob("ownership-by-manager", w, p.same(SENDER, sym("imm:nttManager")), what + " and the caller is not the manager", p, e)
            else:
                rep.ob("owner-only", w, is_owner, what + " and the caller need not be the owner", p, e)
        for e in order(p):
            if e.kind == "upgrade":
                rep.ob("upgrade-owner", w, is_owner and name == "upgrade/1" and p.same(e.a[0], arg(0)), "the code is replaced by someone other than the owner, or by other code than given", p, e)
            if e.kind not in ("sstore", "ext", "emit", "upgrade"):
                rep.ob("known-effect", w, False, f"unexpected effect {e.kind}", p, e)
        special(rep, p, contract, name, own)


def special(rep, p, contract, name, own):
    w = p.where
    fin = lambda pl: final(p, pl)
    if name == "upgrade/1":
        seq = order(p)
        up = [i for i, e in enumerate(seq) if e.kind == "upgrade"]
        mg = [i for i, e in enumerate(seq) if e.kind == "ext" and e.a[0] is THIS and e.a[1] == "migrate"]
        fl = sf(MIGRATING, "isMigrating")
        on = [i for i, e in enumerate(seq) if e.kind == "sstore" and e.a[0] is fl and e.a[1] is TRUE]
        rep.ob("upgrade-migrates", w, len(up) == len(mg) == 1 and up[0] < mg[0] and any(up[0] < i < mg[0] or i < mg[0] for i in on), "the new code is not migrated to", p)
        rep.ob("upgrade-flag-cleared", w, p.same(fin(fl), FALSE), "the migration flag stays set", p)
        rep.ob("upgrade-proxy-only", w, p.decide(eq(THIS, sym("imm:_this"))) is False, "the implementation itself can be upgraded", p)
        free = [f for f, v in p.p.facts.items() if v and f.op == "view" and f.a[0] == "getMigratesImmutables" and f.a[1] is THIS]
        names = ("nttManager", "nttManagerToken", "wormhole", "wormholeRelayer", "specialRelayer", "consistencyLevel") if contract == WT else ("token", "mode", "chainId", "rateLimitDuration")
        if not free:
            for n in names:
                got = [x for f, v in p.p.facts.items() if v and f.op == "eq" for x in f.a if x.op == "view" and x.a[0] == n and x.a[1] is THIS and x.a[3] != I(0)]
                rep.ob("upgrade-immutables", f"{w} {n}", any(p.same(x, sym("imm:" + n)) for x in got), f"an upgrade may silently change {n}", p)
        rep.ob("upgrade-permission-reset", w, p.same(fin(sf(MIGRATES, "value")), FALSE), "the permission to change immutables stays set", p)
    elif name == INIT:
        rep.ob("initialise-proxy-only", w, p.decide(eq(THIS, sym("imm:_this"))) is False, "the implementation itself can be initialised", p)
        rep.ob("initialise-pauser", w, p.same(fin(sf(PAUSER, "_pauser")), SENDER), "the deployer is not the first pauser", p)
        rep.ob("initialise-unpaused", w, p.same(fin(sf(PAUSE, "_pauseFlag")), I(1)), "the contract does not start unpaused", p)
        o = fin(own)
        ok = p.same(o, SENDER) if contract != WT else o.op == "view" and o.a[0] == "owner" and o.a[1] is sym("imm:nttManager")
        rep.ob("initialise-owner", w, ok, f"the first owner is {o}", p)
        z = [x for x in stores(p) if base(x[0])[1][-1:] == ["_initialized"]]
        rep.ob("initialise-once", w, len(z) >= 1 and p.same(z[0][1], I(1)) and (p.holds(eq(ld(z[0][0]), I(0), True)) or p.holds(eq(mk("len", mk("code", THIS)), I(0), True))), "the contract can be initialised again", p)
    elif name == "pause/0":
        rep.ob("pauses", w, p.same(fin(sf(PAUSE, "_pauseFlag")), I(2)), "pausing leaves the contract unpaused", p)
    elif name == "unpause/0":
        rep.ob("unpauses", w, p.same(fin(sf(PAUSE, "_pauseFlag")), I(1)), "unpausing leaves the contract paused", p)
    elif name == "transferOwnership/1":
        rep.ob("new-owner", w, p.same(fin(own), arg(0)) and p.decide(eq(arg(0), ZERO20)) is False, "the ownership goes elsewhere, or to nobody", p)
        if contract != WT:
            loops = [e for e in p.eff if e.kind == "loop" and any(x.kind == "ext" for x in flat([e]))]
            body = list(flat(loops))
            R = ld(REGISTERED)
            ok = len(loops) == 1 and p.same(loops[0].a[1], mk("len", R)) and len(body) == 1 and len(loops[0].a[2]) == 1
            ok = ok and p.same(body[0].a[0], mk("idx", R, loops[0].a[0])) and body[0].a[1] == "transferTransceiverOwnership" and p.same(fargs(body[0])[0], arg(0))
            rep.ob("owner-of-transceivers", w, ok, "the registered transceivers do not follow the ownership", p)
    elif name == "transferPauserCapability/1":
        rep.ob("new-pauser", w, p.same(fin(sf(PAUSER, "_pauser")), arg(0)), "the pauser role goes elsewhere", p)
    elif name == "transferTransceiverOwnership/1":
        rep.ob("new-owner", w, p.same(fin(own), arg(0)), "the ownership goes elsewhere", p)
    elif name == SET_PEER:
        PE = at(PEERS, arg(0))
        ok = all(x[0].a[0] is PE for x in stores_under(p, PEERS)) and p.same(fin(sf(PE, "peerAddress")), arg(1)) and p.same(fin(sf(PE, "tokenDecimals")), arg(2))
        rep.ob("peer-stored", w, ok, "the peer stored is not the one given", p)
        rep.ob("peer-valid", w, all(p.decide(c) is False for c in (eq(arg(0), I(0), True), eq(arg(1), ZERO32), eq(arg(2), I(0), True), eq(arg(0), CHAIN, True))), "an empty peer, or one for this very chain, is accepted", p)
    elif name == "setThreshold/1":
        rep.ob("threshold-stored", w, p.same(fin(sf(THRESH, "num")), arg(0)), "another threshold is stored", p)
        rep.ob("threshold-valid", w, p.decide(eq(arg(0), I(0), True)) is False and p.holds(le(arg(0), ld(sf(NUM, "enabled")))), "a threshold of zero, or above the number of enabled transceivers, is accepted", p)
    elif name == "setTransceiver/1":
        enable(rep, p)
    elif name == "removeTransceiver/1":
        disable(rep, p)
    elif name == "setWormholePeer/2":
        PE = at(WPEERS, arg(0))
        rep.ob("wormhole-peer-stored", w, p.same(fin(PE), arg(1)) and all(x[0] is PE for x in stores_under(p, WPEERS)), "the peer stored is not the one given", p)
        rep.ob("wormhole-peer-valid", w, p.decide(eq(arg(0), I(0), True)) is False and p.decide(eq(arg(1), ZERO32)) is False, "an empty peer is accepted", p)
        rep.ob("wormhole-peer-once", w, p.holds(eq(ld(PE), ZERO32)), "a peer that was set can be replaced", p)
        want = cat(X(bytes.fromhex("18fc67c2")), solint.tob(arg(0), 2), arg(1))
        published(rep, p, want, VALUE, "peer-announced")
    elif name in ("setIsWormholeEvmChain/2", "setIsWormholeRelayingEnabled/2", "setIsSpecialRelayingEnabled/2"):
        R = {"setIsWormholeEvmChain/2": EVMIDS, "setIsWormholeRelayingEnabled/2": RELAY, "setIsSpecialRelayingEnabled/2": SPECIAL}[name]
        pl = at(R, arg(0))
        for b, q in p.cases(arg(1)):
            rep.ob("flag-stored", w, q.same(final(q, pl), I(1) if b else I(0)) and all(x[0] is pl for x in stores(q)), "another flag is stored", q)
    if name not in ("setThreshold/1", "setTransceiver/1", "removeTransceiver/1"):
        rep.ob("registry-writers", w, not any(stores_under(p, r) for r in (THRESH, INFOS, BITMAP, ENABLED, REGISTERED, NUM)), "the set of transceivers or the threshold is changed here", p)


def published(rep, p, payload, value, rule):
    w = p.where
    ex = exts(p)
    ok = len(ex) == 1 and p.same(ex[0].a[0], sym("imm:wormhole")) and ex[0].a[1] == "publishMessage" and p.same(ex[0].kw["value"], value)
    ok = ok and p.same(fargs(ex[0])[1], payload) and p.same(fargs(ex[0])[2], sym("imm:consistencyLevel"))
    rep.ob(rule, w, ok, f"not exactly the message {payload} is published: {[(e.a[1], fargs(e)) for e in ex]}", p)


def registry_after(rep, p, n_enabled):
    w = p.where
    t = final(p, sf(THRESH, "num"))
    rep.ob("threshold-reachable", w, p.holds(le(t, n_enabled)), "the threshold exceeds the number of enabled transceivers", p)
    for some_, q in p.cases(eq(final(p, sf(NUM, "registered")), I(0), True)):
        if not some_:
            rep.ob("threshold-nonzero", w, q.decide(eq(t, I(0), True)) is False, "the threshold becomes zero", q)


def enable(rep, p):
    w, t = p.where, arg(0)
    info = at(INFOS, t)
    fin = lambda pl: final(p, pl)
    rep.ob("transceiver-nonzero", w, p.decide(eq(t, ZERO20)) is False, "the zero address is registered", p)
    rep.ob("enable-own", w, all(x[0].a[0] is info for x in stores_under(p, INFOS)), "another transceiver's record is changed", p)
    rep.ob("enable-set", w, p.same(fin(sf(info, "enabled")), TRUE), "the transceiver is not enabled", p)
    n = ld(sf(NUM, "registered"))
    reg = p.decide(ld(sf(info, "registered")))
    if reg is None:
        rep.ob("enable-known", w, False, "whether the transceiver is known is not consulted", p)
        return
    if reg:
        idx = ld(sf(info, "index"))
        rep.ob("enable-again", w, p.same(fin(sf(info, "index")), idx) and p.holds(fin(sf(info, "registered"))) and p.same(fin(sf(NUM, "registered")), n) and not stores_under(p, REGISTERED), "enabling a known transceiver changes its index or the registered ones", p)
    else:
        idx = n
        rep.ob("enable-new", w, p.same(fin(sf(info, "index")), n) and p.holds(fin(sf(info, "registered"))) and p.same(fin(sf(NUM, "registered")), add(n, I(1))) and p.same(fin(REGISTERED), mk("pushed", ld(REGISTERED), t)), "a new transceiver does not get the next index", p)
        rep.ob("enable-room", w, p.holds(lt(n, I(64))), "more transceivers are registered than a vote has bits", p)
    bm = ld(sf(BITMAP, "bitmap"))
    new = tm.comm("bor", bm, mk("shl", I(1), idx))
    rep.ob("enable-bit", w, p.same(fin(sf(BITMAP, "bitmap")), new), f"the enabled bits become {fin(sf(BITMAP, 'bitmap'))}", p)
    rep.ob("enable-once", w, p.decide(eq(new, bm, True)) is False or p.decide(ld(sf(info, "enabled"))) is False or p.holds(eq(mask(bm, mk("shl", I(1), idx)), I(0), True)), "an enabled transceiver is enabled again", p)
    rep.ob("enable-listed", w, p.same(fin(ENABLED), mk("pushed", ld(ENABLED), t)) and p.same(fin(sf(NUM, "enabled")), add(ld(sf(NUM, "enabled")), I(1))), "the list or the number of enabled transceivers is wrong", p)
    th = ld(sf(THRESH, "num"))
    for z, q in p.cases(eq(th, I(0), True)):
        rep.ob("enable-threshold", w, q.same(final(q, sf(THRESH, "num")), I(1) if z else th), "enabling a transceiver changes the threshold", q)
    registry_after(rep, p, fin(sf(NUM, "enabled")))


def disable(rep, p):
    w, t = p.where, arg(0)
    info = at(INFOS, t)
    fin = lambda pl: final(p, pl)
    rep.ob("disable-enabled", w, p.holds(ld(sf(info, "enabled"))), "a transceiver that is not enabled is removed", p)
    rep.ob("disable-own", w, all(x[0] is sf(info, "enabled") for x in stores_under(p, INFOS)) and p.same(fin(sf(info, "enabled")), FALSE) and not stores_under(p, REGISTERED) and p.same(fin(sf(NUM, "registered")), ld(sf(NUM, "registered"))), "removing a transceiver changes more than its being enabled", p)
    bm = ld(sf(BITMAP, "bitmap"))
    rep.ob("disable-bit", w, p.same(fin(sf(BITMAP, "bitmap")), tm.setbit(bm, ld(sf(info, "index")), FALSE)), f"the enabled bits become {fin(sf(BITMAP, 'bitmap'))}", p)
    E_ = ld(ENABLED)
    n = ld(sf(NUM, "enabled"))
    v = fin(ENABLED)
    last = mk("idx", E_, sub(mk("len", E_), I(1)))
    ok = v.op == "popped" and (v.a[0].op == "upd" and v.a[0].a[0] is E_ and p.same(mk("idx", E_, v.a[0].a[1]), t) and p.same(v.a[0].a[2], last) or v.a[0] is E_ and p.same(last, t))
    rep.ob("disable-listed", w, ok, f"the list of enabled transceivers becomes {v}", p)
    rep.ob("disable-count", w, p.same(fin(sf(NUM, "enabled")), sub(n, I(1))), "the number of enabled transceivers is wrong", p)
    th = ld(sf(THRESH, "num"))
    rep.ob("disable-threshold", w, is_min(p, fin(sf(THRESH, "num")), th, sub(n, I(1))), "the threshold is not kept, nor lowered to what is left", p)
    registry_after(rep, p, fin(sf(NUM, "enabled")))


def c42(rep):
    jobs = [(c, n) for c in CONTRACTS for n in entry_names(c)]
    for c in CONTRACTS:
        have = {n for c2, n in jobs if c2 == c}
        need = ("owner/0", "pauser/0", "upgrade/1", "transferPauserCapability/1") + (("pause/0", "unpause/0", "transferOwnership/1", "setThreshold/1", "setTransceiver/1", "removeTransceiver/1", SET_PEER, SET_OUT, SET_IN) if c != WT else ("transferTransceiverOwnership/1", "setWormholePeer/2"))
        for n in need:
            rep.ob("entry-point", f"{c}.{n}", n in have, "external function no longer exists")
    run(rep, "admin", sorted(jobs, key=lambda j: not j[1].startswith(("transfer/", "att", "exec"))))
    for r, n in (("owner-only", 60), ("upgrade-owner", 3), ("upgrade-immutables", 10), ("pause-role", 2), ("unpause-owner", 2), ("enable-bit", 6), ("disable-bit", 6), ("threshold-valid", 2), ("peer-valid", 4), ("wormhole-peer-once", 1), ("initialise-once", 3)):
        rep.floor(r, n)


# --------------------------------------------------------------- C43 the Wormhole transceiver
WORMHOLE, MANAGER = sym("imm:wormhole"), sym("imm:nttManager")
RECV, RELAYED, SEND, QUOTE = "receiveMessage/1", "receiveWormholeMessages/5", "sendMessage/5", "quoteDeliveryPrice/2"
PREFIX = X(bytes.fromhex("9945ff10"))


def view_of(p, name, who, args):
    """the view call as it is seen on the path before any other contract was called"""
    return mk("view", name, who, tm.tup(*args), I(0))


def wh_transceiver(rep, ps, contract, name):
    for p in ps:
        w = p.where
        used = stores_under(p, CONSUMED)
        if name not in (RECV, RELAYED):
            rep.ob("consumed-writers", w, not used, "the record of consumed messages is written here", p, used[0][2] if used else None)
            att = [e for e in exts(p) if e.a[1] == "attestationReceived"]
            rep.ob("attest-only-receiving", w, not att, "an attestation is made here", p, att[0] if att else None)
        if name != SEND:
            out = [e for e in exts(p) if e.a[1] in ("sendToEvm", "requestDelivery") or e.a[1] == "publishMessage" and transfer_payload(p, fargs(e)[1])]
            rep.ob("send-only-manager", w, not out, "a transceiver message is sent here", p, out[0] if out else None)
        if name == RECV:
            vm = view_of(p, "parseAndVerifyVM", WORMHOLE, [arg(0)])
            rep.ob("verified", w, p.holds(fld(vm, "1")), "a message that the core bridge does not verify is accepted", p)
            vm = fld(vm, "0")
            rep.ob("fork", w, p.same(CHAINID, sym("imm:wormholeTransceiver_evmChainId")), "a message is accepted on a fork of the chain", p)
            delivered(rep, p, fld(vm, "emitterChainId"), fld(vm, "emitterAddress"), fld(vm, "hash"), fld(vm, "payload"), used)
        elif name == RELAYED:
            rep.ob("relayer-only", w, p.same(SENDER, sym("imm:wormholeRelayer")), "anyone can deliver a relayed message", p)
            rep.ob("no-additional", w, p.holds(eq(mk("len", arg(1)), I(0), True)), "additional messages are ignored silently", p)
            delivered(rep, p, arg(3), arg(2), arg(4), arg(0), used)
        elif name == SEND:
            wh_send(rep, p)
        elif name == QUOTE:
            wh_quote(rep, p)


def is_result(t):
    return str(t).startswith("result(")


def transfer_payload(p, b):
    return p.decide(eq(sl(b, 0, 4), PREFIX)) is not False


def delivered(rep, p, chain, src, h, pl, used):
    w = p.where
    rep.ob("peer", w, p.same(ld(at(WPEERS, chain)), src), "the message need not come from the registered peer of its chain", p)
    C = at(CONSUMED, h)
    rep.ob("consumed-once", w, p.decide(ld(C)) is False, "a message that was consumed is accepted again", p)
    seq = order(p)
    first = next((i for i, e in enumerate(seq) if e.kind == "ext"), len(seq))
    rep.ob("consumed-set", w, len(used) == 1 and used[0][0] is C and p.same(used[0][1], TRUE) and seq.index(used[0][2]) < first, "the message is not marked consumed before the manager is called", p)
    rep.ob("prefix", w, p.same(sl(pl, 0, 4), PREFIX), "a payload of another kind is accepted", p)
    rep.ob("recipient", w, p.same(sl(pl, 36, 68), cat(X(bytes(12)), MANAGER)), "a message for another manager is accepted", p)
    n, m = num(sl(pl, 68, 70), 2), num(sl(pl, 134, 136), 2)
    t = num(solint.bslice(pl, add(n, I(70)), add(n, I(72))), 2)
    rep.ob("lengths", w, p.holds(eq(n, add(m, I(66)), True)) and p.holds(eq(mk("len", pl), add(add(n, t), I(72)), True)), "a payload whose length fields do not cover it exactly is accepted", p)
    ex = exts(p)
    rep.ob("one-delivery", w, len(ex) == 1 and ex[0].a[1] == "attestationReceived" and p.same(ex[0].a[0], MANAGER), "the message is not handed to the manager exactly once", p)
    if len(ex) == 1 and ex[0].a[1] == "attestationReceived":
        a = fargs(ex[0])
        rep.ob("delivered-chain", w, p.same(a[0], chain), f"the manager is told chain {a[0]}", p, ex[0])
        rep.ob("delivered-source", w, p.same(a[1], sl(pl, 4, 36)), f"the manager is told source {a[1]}", p, ex[0])
        msg = a[2]
        ok = p.same(member(p, msg, "id"), sl(pl, 70, 102)) and p.same(member(p, msg, "sender"), sl(pl, 102, 134)) and p.same(member(p, msg, "payload"), solint.bslice(pl, I(136), add(m, I(136))))
        rep.ob("delivered-message", w, ok, f"the manager is given {msg}", p, ex[0])


def skips(p, payload):
    """does the instruction ask to skip the relayer?"""
    if p.decide(eq(mk("len", payload), I(0), True)) is True:
        return False
    return p.decide(eq(num(sl(payload, 0, 1), 1), I(1), True))


def flag(p, root, chain):
    v = ld(at(root, chain))
    if p.decide(eq(v, I(1), True)) is True:
        return True
    return False if p.decide(eq(v, I(0), True)) is True or p.decide(eq(v, I(1), True)) is False else None


def route(p, chain, payload):
    """'manual' / 'standard' / 'special', or None when the path does not determine it"""
    s = skips(p, payload)
    if s is True:
        return "manual"
    if s is None:
        return None
    r, e, x = flag(p, RELAY, chain), flag(p, EVMIDS, chain), flag(p, SPECIAL, chain)
    if r and e:
        return "standard"
    if r is None or r and e is None:
        return None
    return "special" if x else "manual" if x is False else None


def wh_send(rep, p):
    w = p.where
    chain, instr, message, rcpt, refund = (arg(i) for i in range(5))
    rep.ob("manager-only", w, p.same(SENDER, MANAGER), "anyone can send a transceiver message", p)
    guarded(rep, p)
    rep.ob("message-length", w, p.holds(le(mk("len", message), I(65535))), "a message that does not fit its length field is sent", p)
    want = cat(PREFIX, X(bytes(12)), SENDER, rcpt, solint.tob(mk("len", message), 2), message, X(b"\0\0"))
    pl = fld(instr, "payload")
    ex = exts(p)
    rt = route(p, chain, pl)
    if rt is None:
        rep.ob("route-known", w, False, "the way of the message does not depend on the relaying settings and the instruction alone", p)
        return
    if p.decide(eq(mk("len", pl), I(0), True)) is not True:
        rep.ob("instruction-exact", w, p.holds(eq(mk("len", pl), I(1), True)), "trailing bytes in the instruction are ignored", p)
    fee = view_of(p, "messageFee", WORMHOLE, [])
    names = [e.a[1] for e in ex]
    if rt == "standard":
        ok = names == ["sendToEvm"] and p.same(ex[0].a[0], sym("imm:wormholeRelayer")) and p.same(ex[0].kw["value"], VALUE)
        rep.ob("standard-route", w, ok, f"a standard relayed message is sent by {names}", p)
        if ok:
            a = fargs(ex[0])
            wh = lambda b: tm.call("fromWormholeFormat", b) if not hasattr(solint, "from_wh") else solint.from_wh(b)
            rep.ob("standard-target", w, p.same(a[0], chain) and p.same(a[1], wh(ld(at(WPEERS, chain)))), "the delivery does not go to the peer on the target chain", p, ex[0])
            rep.ob("sent-payload", w, p.same(a[2], want), f"the payload is {a[2]}", p, ex[0])
            rep.ob("standard-refund", w, p.same(a[6], chain) and p.same(a[7], wh(refund)), "the refund does not go to the refund address", p, ex[0])
            rep.ob("standard-cost", w, p.same(a[3], I(0)) and p.same(a[4], I(0)) and p.same(a[5], sym("imm:gasLimit")), "the delivery is not the one quoted", p, ex[0])
            rep.ob("consistency-level", w, p.same(a[10], sym("imm:consistencyLevel")), "another consistency level is used", p, ex[0])
    else:
        rep.ob(rt + "-route", w, names == (["publishMessage"] if rt == "manual" else ["publishMessage", "requestDelivery"]) and p.same(ex[0].a[0], WORMHOLE) and p.same(ex[0].kw["value"], VALUE if rt == "manual" else fee), f"a {rt} message is sent by {names}", p)
        if ex and ex[0].a[1] == "publishMessage":
            a = fargs(ex[0])
            rep.ob("sent-payload", w, p.same(a[1], want), f"the payload is {a[1]}", p, ex[0])
            rep.ob("consistency-level", w, p.same(a[2], sym("imm:consistencyLevel")), "another consistency level is used", p, ex[0])
        if rt == "special" and len(ex) == 2 and ex[1].a[1] == "requestDelivery":
            a = fargs(ex[1])
            rep.ob("special-request", w, p.same(ex[1].a[0], sym("imm:specialRelayer")) and p.same(ex[1].kw["value"], sub(VALUE, fee)) and p.same(a[0], sym("imm:nttManagerToken")) and p.same(a[1], chain) and p.same(a[2], I(0)) and is_result(a[3]), "the delivery requested is not that of the published message for the rest of the fee", p, ex[1])


def wh_quote(rep, p):
    w = p.where
    chain, pl = arg(0), fld(arg(1), "payload")
    rt = route(p, chain, pl)
    fee = view_of(p, "messageFee", WORMHOLE, [])
    if rt is None:
        rep.ob("quote-known", w, False, "the quote does not depend on the relaying settings and the instruction alone", p)
        return
    if rt == "standard":
        want = fld(view_of(p, "quoteEVMDeliveryPrice", sym("imm:wormholeRelayer"), [chain, I(0), sym("imm:gasLimit")]), "0")
    elif rt == "special":
        want = add(view_of(p, "quoteDeliveryPrice", sym("imm:specialRelayer"), [sym("imm:nttManagerToken"), chain, I(0)]), fee)
    else:
        want = fee
    rep.ob("quote", w, len(p.p.ret) == 1 and p.same(p.p.ret[0], want), f"the price quoted for the {rt} route is {p.p.ret}", p)
    if skips(p, pl) is False and flag(p, RELAY, chain):
        rep.ob("quote-config", w, flag(p, EVMIDS, chain) is True, "a price is quoted for relaying to a chain that is not an EVM chain", p)


def c43(rep):
    jobs = [(WT, n) for n in entry_names(WT)]
    for n in (RECV, RELAYED, SEND, QUOTE):
        rep.ob("entry-point", f"{WT}.{n}", (WT, n) in jobs, "external function no longer exists")
    run(rep, "wh_transceiver", jobs)
    for r, n in (("peer", 2), ("consumed-once", 2), ("recipient", 2), ("delivered-message", 2), ("sent-payload", 3), ("standard-target", 1), ("special-request", 1), ("quote", 3)):
        rep.floor(r, n)


# --------------------------------------------------------------- C44 governance
GOV, ACTIONS = "Governance", slot(b"governance.consumedGovernanceActions")
MODULE = X(b"GeneralPurposeGovernance".rjust(32, b"\0"))


def governed(rep, ps, contract, name):
    for p in ps:
        w = p.where
        ex, used = exts(p), stores(p)
        if name != "performGovernance/1":
            rep.ob("governance-only-way", w, not ex and not used, "something is done here without a governance message", p)
            continue
        vm = view_of(p, "parseAndVerifyVM", WORMHOLE, [arg(0)])
        rep.ob("verified", w, p.holds(fld(vm, "1")), "a message that the core bridge does not verify is accepted", p)
        vm = fld(vm, "0")
        rep.ob("governance-chain", w, p.same(fld(vm, "emitterChainId"), view_of(p, "governanceChainId", WORMHOLE, [])), "a message from another chain is accepted", p)
        rep.ob("governance-emitter", w, p.same(fld(vm, "emitterAddress"), view_of(p, "governanceContract", WORMHOLE, [])), "a message from another emitter is accepted", p)
        C = at(ACTIONS, fld(vm, "hash"))
        rep.ob("consumed-once", w, p.decide(ld(C)) is False, "a governance message is performed twice", p)
        seq = order(p)
        first = next((i for i, e in enumerate(seq) if e.kind == "ext"), len(seq))
        rep.ob("consumed-set", w, len(used) == 1 and used[0][0] is C and p.same(used[0][1], TRUE) and seq.index(used[0][2]) < first, "the message is not marked consumed before it is performed", p)
        pl = fld(vm, "payload")
        n = num(sl(pl, 75, 77), 2)
        rep.ob("module", w, p.same(sl(pl, 0, 32), MODULE), "a message of another module is performed", p)
        rep.ob("action", w, p.holds(eq(num(sl(pl, 32, 33), 1), I(1), True)), "another action is performed", p)
        rep.ob("chain", w, p.same(num(sl(pl, 33, 35), 2), view_of(p, "chainId", WORMHOLE, [])), "a message for another chain is performed", p)
        rep.ob("contract", w, p.same(sl(pl, 35, 55), THIS), "a message for another governance contract is performed", p)
        rep.ob("length", w, p.holds(eq(mk("len", pl), add(n, I(77)), True)), "a message with trailing bytes is performed", p)
        ok = len(ex) == 1 and ex[0].a[1] == "call" and p.same(ex[0].a[0], sl(pl, 55, 75)) and p.same(fargs(ex[0])[0], solint.bslice(pl, I(77), add(n, I(77))))
        rep.ob("performed", w, ok, "what is called is not what the message says", p, ex[0] if ex else None)
        if ok:
            rep.ob("must-succeed", w, any(t.op == "ok" and is_result(t.a[0]) and v is True for t, v in p.p.facts.items()), "a failed call consumes the message", p, ex[0])


def c44(rep):
    jobs = [(GOV, n) for n in entry_names(GOV)]
    rep.ob("entry-point", GOV, (GOV, "performGovernance/1") in jobs, "external function no longer exists")
    run(rep, "governed", jobs)
    rep.floor("performed", 1)


# --------------------------------------------------------------- C38 wire formats
STRUCTS = "TransceiverStructs"


def member(p, s, n):
    """a field of a struct, resolved when the struct is known"""
    if p is not None and s.op == "agg":
        names = [f for f, _ in p.p.ip.sfields(("struct", s.a[0]))]
        if n in names:
            return s.a[2 + names.index(n)]
    return fld(s, n)


class Fmt:
    """a layout: literal bytes, ("u"|"b", name, size) or ("v", name, size of the length field)"""

    def __init__(self, *items, amount=False):
        self.items, self.amount = items, amount

    def get(self, p, s, n):
        if n in ("amount.decimals", "amount.amount"):
            return unpacked(p, member(p, s, "amount"))[n == "amount.decimals"]
        return member(p, s, n)

    def encode(self, p, s):
        out = []
        for it in self.items:
            if isinstance(it, T):
                out.append(it)
                continue
            v = self.get(p, s, it[1])
            if it[0] == "v":
                out.append(solint.tob(mk("len", v), it[2]))
            out.append(solint.tob(v, it[2]) if it[0] == "u" else tm.mk("tob", mk("b2i", v), "be", 1) if it[0] == "f" else v)
        return cat(*out)

    def bounds(self, s):
        return [le(mk("len", fld(s, it[1])), I((1 << 8 * it[2]) - 1)) for it in self.items if not isinstance(it, T) and it[0] == "v"]

    def slices(self, b, o=I(0)):
        """([(name, value)], [facts], end)"""
        fs, facts = [], []
        for it in self.items:
            if isinstance(it, T):
                e = add(o, solint.blen(it))
                facts.append((solint.bslice(b, o, e), it))
            else:
                e = add(o, I(it[2]))
                v = solint.bslice(b, o, e)
                if it[0] in ("u", "f"):
                    v = num(v, it[2])
                elif it[0] == "v":
                    n = num(v, it[2])
                    o, e = e, add(e, n)
                    v = solint.bslice(b, o, e)
                fs.append((it[0], it[1], v))
            o = e
        return fs, facts, o


NTT = X(bytes.fromhex("994e5454"))
F_MSG = Fmt(("b", "id", 32), ("b", "sender", 32), ("v", "payload", 2))
F_TRANSFER = (NTT, ("u", "amount.decimals", 1), ("u", "amount.amount", 8), ("b", "sourceToken", 32), ("b", "to", 32), ("u", "toChain", 2))
F_SHORT, F_LONG = Fmt(*F_TRANSFER), Fmt(*F_TRANSFER, ("v", "additionalPayload", 2))
F_TMSG = (("b", "sourceNttManagerAddress", 32), ("b", "recipientNttManagerAddress", 32), ("v", "nttManagerPayload", 2), ("v", "transceiverPayload", 2))
F_INSTR = Fmt(("u", "index", 1), ("v", "payload", 1))
F_INIT = Fmt(("b", "transceiverIdentifier", 4), ("b", "nttManagerAddress", 32), ("u", "nttManagerMode", 1), ("b", "tokenAddress", 32), ("u", "tokenDecimals", 1))
F_REG = Fmt(("b", "transceiverIdentifier", 4), ("u", "transceiverChainId", 2), ("b", "transceiverAddress", 32))
F_GOV = Fmt(MODULE, ("u", "action", 1), ("u", "chain", 2), ("b", "governanceContract", 20), ("b", "governedContract", 20), ("v", "callData", 2))
F_SKIP = Fmt(("f", "shouldSkipRelayerSend", 1))

# encoder, its struct argument, parser, the conditions and the layout
FORMATS = [
    (STRUCTS, "encodeNttManagerMessage/1", 0, "parseNttManagerMessage/1", F_MSG, None),
    (STRUCTS, "encodeNativeTokenTransfer/1", 0, "parseNativeTokenTransfer/1", F_SHORT, "additionalPayload"),
    (STRUCTS, "encodeTransceiverInstruction/1", 0, "parseTransceiverInstructionChecked/1", F_INSTR, None),
    (STRUCTS, "encodeTransceiverInit/1", 0, "decodeTransceiverInit/1", F_INIT, None),
    (STRUCTS, "encodeTransceiverRegistration/1", 0, "decodeTransceiverRegistration/1", F_REG, None),
    (GOV, "encodeGeneralPurposeGovernanceMessage/1", 0, "parseGeneralPurposeGovernanceMessage/1", F_GOV, None),
    (WT, "encodeWormholeTransceiverInstruction/1", 0, "parseWormholeTransceiverInstruction/1", F_SKIP, None),
    (STRUCTS, "encodeTransceiverMessage/2", 1, "parseTransceiverAndNttManagerMessage/2", Fmt(arg(0), *F_TMSG), None),
]


def library_fn(contract, name):
    u = unit()
    n, k = name.split("/")
    fs = []
    if contract in u.contracts:
        ip = solint.Interp(u, contract)
        for c in (ip.lin or [contract]):
            fs = fs or [g for g in u.contracts[c].fns if g.name == n and len(g.params) == int(k)]
    if not fs:
        raise Broken("function", f"{contract}.{name}", "function no longer exists")
    return fs[0]


def behaviour(rep, contract, name, args, pre=(), keep=False):
    g = library_fn(contract, name)
    out, ip = solint.summarise_fn(unit(), contract, g, args=args, pre=pre, keep=keep)
    rep.analysed[f"{contract}.{name}"] = rep.analysed.get(f"{contract}.{name}", 0) + len(out)
    rep.steps += ip.steps
    rep.forks += ip.nforks
    rep.calls += ip.ncalls
    return [P(summ.Path(ip, name, r, st, i), contract, name) for i, (r, st) in enumerate(out)], ip


def formats(rep, contract, enc, k, par, fmt, optional):
    """the encoder writes the layout and refuses what does not fit; the parser reads it, refuses anything else;
    parsing what was encoded gives it back"""
    g = library_fn(contract, enc)
    args = [arg(i) for i in range(len(g.params))]
    s = args[k]
    variants = [(fmt, [])] if not optional else [(fmt, [eq(mk("len", fld(s, optional)), I(0), True)]), (F_LONG, [b_not(eq(mk("len", fld(s, optional)), I(0), True))])]
    w = f"{contract}::{enc}"
    for f, cond in variants:
        ps, ip = behaviour(rep, contract, enc, args, cond)
        for p in ps:
            want = f.encode(p, s)
            rep.ob("encoding", w, len(p.p.ret) == 1 and p.same(p.p.ret[0], want), f"the encoding is {p.p.ret[0] if p.p.ret else None}, not {want}", p)
            rep.ob("encoding-fits", w, all(p.holds(b) for b in f.bounds(s)), "a value whose length does not fit its field is encoded", p)
        ps, ip = behaviour(rep, contract, enc, args, cond + f.bounds(s))
        rep.ob("encoding-total", w, bool(ps) and not ip.reverts, f"a value that fits cannot be encoded ({ip.reverts[:1]})")
        for p in ps:
            if p.p.ret:
                round_trip(rep, p, contract, par, f, s, p.p.ret[0], optional, args[:k])


def round_trip(rep, p, contract, par, f, s, e, optional, prefix):
    w = f"{contract}::{par}"
    inner = par.startswith("parseTransceiverAnd")
    pre = [t if v else b_not(t) for t, v in p.p.facts.items()]
    if inner:
        e0, m = fld(s, "nttManagerPayload"), sym("message")
        # the manager's message inside is itself an encoded one
        for n in ("id", "sender"):
            solint.SIZES[fld(m, n)] = 32
        e = tm.subst(e, lambda t: F_MSG.encode(None, m) if t is e0 else len_of(F_MSG.encode(None, m)) if t is mk("len", e0) else None)
        pre = [le(mk("len", fld(m, "payload")), I(65535 - 66)), le(mk("len", fld(s, "transceiverPayload")), I(65535))]
        e = cat(*[F_MSG.encode(None, m) if t is e0 else t for t in e.a]) if e.op == "cat" else e
    qs, ip = behaviour(rep, contract, par, list(prefix) + [e], pre, keep=True)
    rep.ob("round-trip-accepted", w, bool(qs) and not ip.reverts, f"an encoded value is refused ({ip.reverts[:1]})")
    for q in qs:
        r = q.p.ret[0]
        for it in f.items:
            if isinstance(it, T):
                continue
            a, b = f.get(q, r, it[1]), f.get(q, s, it[1])
            if inner and it[1] == "nttManagerPayload":
                b = F_MSG.encode(None, m)
            rep.ob("round-trip", w, q.same(a, b), f"{it[1]} comes back as {a}", q)
        if optional and f is not F_LONG:
            rep.ob("round-trip", w, q.same(solint.blen(member(q, r, optional)), I(0)), f"{optional} comes back as {member(q, r, optional)}", q)
        if inner:
            for n in ("id", "sender", "payload"):
                rep.ob("round-trip", w, q.same(member(q, q.p.ret[1], n), fld(m, n)), f"{n} of the message comes back as {member(q, q.p.ret[1], n)}", q)


def len_of(t):
    return solint.blen(t)


def parsing(rep, contract, par, fmt, optional):
    g = library_fn(contract, par)
    args = [arg(i) for i in range(len(g.params))]
    b = args[-1]
    w = f"{contract}::{par}"
    ps, ip = behaviour(rep, contract, par, args)
    rep.ob("parses", w, bool(ps), "nothing can be parsed")
    for p in ps:
        f = fmt
        if par.startswith("parseWormholeTransceiverInstruction") and p.decide(eq(mk("len", b), I(0), True)) is True:
            rep.ob("default-instruction", w, p.same(member(p, p.p.ret[0], "shouldSkipRelayerSend"), FALSE), "an empty instruction skips the relayer", p)
            continue
        if optional:
            if p.holds(eq(mk("len", b), I(79), True)):
                rep.ob("parsed", w, p.same(solint.blen(member(p, p.p.ret[0], optional)), I(0)), "a payload is made up", p)
            else:
                f = F_LONG
        one_parse(rep, p, w, f, p.p.ret[0], b)
        if par.startswith("parseTransceiverAnd"):
            one_parse(rep, p, w, F_MSG, p.p.ret[1], member(p, p.p.ret[0], "nttManagerPayload"))


def one_parse(rep, p, w, f, r, b):
    fs, facts, end = f.slices(b)
    for got, want in facts:
        rep.ob("parsed-constant", w, p.same(got, want), f"{want} is not required at its place", p)
    for kind, n, v in fs:
        x = f.get(p, r, n)
        if kind == "f":
            rep.ob("parsed", w, p.holds(le(v, I(1))) and p.decide(x) is p.decide(eq(v, I(1), True)) and p.decide(x) is not None or x is eq(v, I(1), True), f"{n} is read as {x}", p)
        else:
            rep.ob("parsed", w, p.same(x, v), f"{n} is read as {x}", p)
    rep.ob("parsed-length", w, p.holds(eq(solint.blen(b), end, True)), "bytes that are cut off or left over are accepted", p)


def c38(rep):
    for contract, enc, k, par, fmt, opt in FORMATS:
        formats(rep, contract, enc, k, par, fmt, opt)
        parsing(rep, contract, par, fmt, opt)
    # the digest
    s = arg(1)
    for p in behaviour(rep, STRUCTS, "nttManagerMessageDigest/2", [arg(0), s])[0]:
        rep.ob("digest", p.where, p.same(p.p.ret[0], digest_of(p, arg(0), s)), f"the digest is {p.p.ret[0]}", p)
    # building
    a = [arg(i) for i in range(5)]
    for p in behaviour(rep, STRUCTS, "buildAndEncodeTransceiverMessage/5", a)[0]:
        want = cat(a[0], a[1], a[2], solint.tob(mk("len", a[3]), 2), a[3], solint.tob(mk("len", a[4]), 2), a[4])
        rep.ob("built", p.where, p.same(p.p.ret[1], want), f"the message built is {p.p.ret[1]}", p)
        rep.ob("built", p.where, all(p.same(member(p, p.p.ret[0], it[1]), x) for it, x in zip(F_TMSG, a[1:])), "the struct returned is another message", p)
    # one instruction out of many
    b, o = arg(0), arg(1)
    for p in behaviour(rep, STRUCTS, "parseTransceiverInstructionUnchecked/2", [b, o])[0]:
        fs, _, end = F_INSTR.slices(b, o)
        rep.ob("instruction-at", p.where, all(p.same(member(p, p.p.ret[0], n), v) for _, n, v in fs) and p.same(p.p.ret[1], end), f"the instruction is read as {p.p.ret}", p)
    ins = arg(0)
    ps, _ = behaviour(rep, STRUCTS, "encodeTransceiverInstructions/1", [ins])
    for p in ps:
        r = p.p.ret[0]
        n = mk("len", ins)
        ok = r.op == "cat" and len(r.a) == 2 and p.same(r.a[0], solint.tob(n, 1)) and r.a[1].op == "catall" and p.same(r.a[1].a[1], n)
        ok = ok and p.same(r.a[1].a[2], F_INSTR.encode(p, mk("idx", ins, r.a[1].a[0]))) and p.holds(le(n, I(255)))
        rep.ob("instructions-encoded", p.where, ok, f"the instructions are encoded as {r}", p)
    instructions(rep)


def instructions(rep):
    """each instruction is put at its own index, in increasing order, and the bytes are used up"""
    b, n = arg(0), arg(1)
    ps, ip = behaviour(rep, STRUCTS, "parseTransceiverInstructions/2", [b, n])
    w = f"{STRUCTS}::parseTransceiverInstructions/2"
    for p in ps:
        rep.ob("instructions-length", w, p.same(solint.alen(p.p.ret[0]), n), "there is not one instruction per transceiver", p)
    seen = 0
    for fn, entry, base_, hav, conts, ctr, count in ip.loops:
        vals = lambda st: {k: (v.t if isinstance(v, solint.V) else v) for k, v in st.store.items() if k in hav}
        un = {k: (v.t if isinstance(v, solint.V) else v) for k, v in hav.items()}
        for st in conts:
            p = P(summ.Path(ip, fn.name, [], st, seen), STRUCTS, "parseTransceiverInstructions/2")
            nx = vals(st)
            ups = [(k, v) for k, v in nx.items() if v.op == "upd" and v.a[0] is un[k]]
            rep.ob("instruction-stored", w, len(ups) == 1, "an instruction is not stored once", p)
            if len(ups) != 1:
                continue
            seen += 1
            at_, what = ups[0][1].a[1], ups[0][1].a[2]
            offs = [k for k, v in nx.items() if v.op != "upd" and F_INSTR.slices(b, un[k])[2] is v]
            rep.ob("instruction-next", w, len(offs) == 1, "the next instruction is not read from where this one ends", p)
            if len(offs) != 1:
                continue
            fs, _, end = F_INSTR.slices(b, un[offs[0]])
            rep.ob("instruction-first", w, p.same(vals(entry)[offs[0]], I(1)), "the first instruction is not read after the count", p)
            rep.ob("instruction-read", w, all(p.same(member(p, what, f), v) for _, f, v in fs) and p.same(at_, fs[0][2]), f"{what} is stored at {at_}", p)
            rep.ob("instruction-index", w, p.holds(lt(at_, n)), "an instruction for a transceiver that is not registered is accepted", p)
            first = ctr is not None and p.same(ctr[1], I(0))
            last = [k for k, v in nx.items() if p.same(v, at_) and p.holds(lt(un[k], at_))]
            rep.ob("instruction-order", w, first or bool(last), "instructions need not be in increasing order", p)
            keep = [k for k, v in nx.items() if p.same(v, at_)]
            rep.ob("instruction-last", w, bool(keep), "the last index is not remembered", p)
            rep.ob("instruction-count", w, count is not None and p.same(count, num(sl(b, 0, 1), 1)), "the number of instructions is not the one given", p)
    for p in ps:
        offs = [k for fn, entry, base_, hav, conts, ctr, count in ip.loops for k, v in hav.items() if isinstance(v, solint.V) and p.holds(eq(mk("len", b), v.t, True))]
        rep.ob("instructions-exact", w, bool(offs), "bytes that are left over are accepted", p)
    rep.floor("instruction-stored", 1)
