"""Guardian governance program: C28, C29."""
from lib import *
import props_wire as wire

GE = X(bytes(31) + b"\x04")


def vaa_of(p):
    a = p.accts("PostedVaa")
    if len(a) != 1:
        raise Broken("gov-verified-vaa", p.where, "the message is not read from one verified wormhole message account")
    return a[0], p.pre(a[0], "PostedVaa")


def invokes(p):
    return p.effects("invoke")


def c28(rep):
    """authorisation and replay protection"""
    for r in roots(GOV):
        for p in paths(rep, GOV, r):
            w = p.where
            inv = invokes(p)
            if not inv and not p.persists():
                continue
            a, v = vaa_of(p)
            ch, em, sq = F(v, "meta", "emitter_chain"), F(v, "meta", "emitter_address"), F(v, "meta", "sequence")
            rep.ob("gov-chain", w, p.same(ch, I(1)), "emitter chain is not required to be the guardians' governance chain", p)
            rep.ob("gov-emitter", w, p.same(em, GE), "emitter is not required to be the governance emitter", p)
            rep.ob("gov-target", w, p.same(F(v, "payload", "1", "governance_program_id"), p.id), "message is not required to address this program", p)
            seeds = [X(b"replay"), be(ch, 2), em, be(sq, 8)]
            rp = p.accts("ReplayProtection")
            ok = len(rp) == 1 and p.created(rp[0]) and p.is_pda(rp[0], seeds) and p.written(rp[0], "ReplayProtection")
            rep.ob("gov-replay", w, ok, "no fresh replay record derived from emitter chain, emitter and sequence is created", p)
            rep.ob("gov-once", w, len(inv) <= 1 and not any(e.loop for e in inv), f"{len(inv)} invocations for one message", p)
            for e in p.effects("close"):
                rep.ob("gov-replay-kept", w, False, "a replay record is closed", p, e)
    wire.need_probe(wire.GPR)
    # "addresses this governance program" presupposes that the decoder insists on the governance module and action
    for mod in ("gov_message", "gov_message_anchor"):
        wire.strict(rep, wire.GPR, mod, "gov_message")
    rep.floor("gov-replay", 1)


LONG = 140      # more accounts than one cross-program invocation may carry (128)


def gacc(i, n):
    """account i of n: any account at all in short lists; in the long one all but a few are given ones that are not placeholders"""
    if n < LONG or i in (0, 64, n - 1):
        return mk("fldx", "account", i)
    t = adt_struct("governance::Acc")
    return agg(t, "Acc", X(i.to_bytes(2, "big") * 16), B(bool(i & 1)), B(bool(i & 2)))


def list_case(n):
    def rw(t):
        if t.a[1] == "accounts" and t.a[0].op == "fld" and t.a[0].a[1] == "1" and any(x.op == "data" for x in tm.subterms(t)):
            return agg("array", "", *[gacc(i, n) for i in range(n)])
        return None
    return rw


def gov_case(rep, n):
    """all paths for a message with n accounts"""
    s = summ.summary_with(GOV, "governance", f"{n} accounts", list_case(n))
    rep.analysed[f"{GOV}::governance[{n} accounts]"] = len(s.paths)
    rep.steps += s.ip.steps
    rep.forks += s.ip.nforks
    rep.calls += s.ip.ncalls
    if not s.paths:
        raise Broken("success-path", f"{GOV}::governance", "no successful path")
    return [P(p, GOV, "governance") for p in s.paths]


def c29(rep):
    """the invoked instruction is the one the guardians signed"""
    OWNER, PAYER = X(b"owner" + bytes(27)), X(b"payer" + bytes(27))
    for n in (0, 1, 2, LONG):
        for p in gov_case(rep, n):
            w = p.where
            a, v = vaa_of(p)
            m = F(v, "payload", "1")
            inv = invokes(p)
            rep.need("gov-invokes", w, len(inv) == 1 and not inv[0].loop, f"{len(inv)} invocations")
            ix = inv[0].kw["ix"]
            rep.ob("gov-program", w, p.same(F(ix, "program_id"), F(m, "program_id")), f"invokes {F(ix, 'program_id')}", p, inv[0])
            rep.ob("gov-data", w, p.same(F(ix, "data"), F(m, "data")), f"instruction data {F(ix, 'data')}", p, inv[0])
            g = p.pda([X(b"governance")])
            ms = F(ix, "accounts")
            metas = models.elems(ms)
            ok = metas is not None and len(metas) == n
            rep.need("gov-account-count", w, ok, f"account list {ms}")
            payers = [x for x in facts_signers(p)]
            for i, meta in enumerate(metas):
                src = gacc(i, n)
                k = F(src, "pubkey")
                got = F(meta, "pubkey")
                for b, q in p.cases(eq(k, OWNER)):
                    if b:
                        rep.ob("gov-owner-placeholder", w, q.same(got, g), f"owner placeholder becomes {got}", q, inv[0])
                        continue
                    for b2, q2 in q.cases(eq(k, PAYER)):
                        if b2:
                            rep.ob("gov-payer-placeholder", w, any(q2.same(got, key(x)) for x in payers), f"payer placeholder becomes {got}", q2, inv[0])
                        else:
                            rep.ob("gov-account-kept", w, q2.same(got, k), f"account {i} becomes {got}", q2, inv[0])
                for f in ("is_signer", "is_writable"):
                    rep.ob("gov-account-flags", w, p.same(F(meta, f), F(src, f)), f"{f} of account {i} becomes {F(meta, f)}", p, inv[0])
            sd = inv[0].kw["seeds"]
            rep.ob("gov-signs-only-governance", w, sd.op == "agg" and len(tm.fields(sd)) == 1 and p.same(models.mk_pda1(tm.fields(sd)[0], p.id), g),
                   f"signer seeds {sd}", p, inv[0])
            rep.ob("gov-no-other-effects", w, not [e for e in p.eff if e.kind in TOKEN_OPS + ("sys_transfer", "set_upgrade_authority")], "further effects", p)
    wire.need_probe(wire.GPR)
    # what the program acts on is what the signed bytes say: the decoder inverts the documented encoding
    for mod in ("gov_message", "gov_message_anchor"):
        for n in wire.GOVN:
            wire.gov_one(rep, mod, n)
    rep.floor("gov-account-kept", 3)


def facts_signers(p):
    return [f.a[0] for f, v in p.p.facts.items() if v and f.op == "fld" and f.a[1] == "is_signer" and f.a[0].op == "acc"]
