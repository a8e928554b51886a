"""Inbound side: C01-C05, C10(in), C22."""
import props_fns
from lib import *

RS = "inbox::ReleaseStatus"
REL = ("release_inbound_mint", "release_inbound_unlock")


def st(p, v, name):
    return p.decide(var(F(v, "release_status"), RS, name))


def item_persists(p):
    return [(e, e.a[0]) for e in p.persists("InboxItem")]


def impossible(p, acc):
    """an existing item whose init flag is unset: excluded by the invariant that every stored
    item has it set (an obligation of C01)"""
    return not p.created(acc) and p.decide(F(mk("data", acc, p.fullty(acc, "InboxItem")), "init")) is False


def is_custody(p, acc):
    return any(p.same(key(acc), F(p.pre(c, "Config"), "custody")) for c in p.accts("Config"))


def c01(rep):
    n = 0
    for p in all_paths(rep, MGR):
        out = [e for e in p.effects("transfer") if not is_custody(p, e.kw["dst"])]
        mints = p.effects("mint_to")
        if out or mints:
            n += 1
            rep.ob("payout-once-per-call", p.where, len(out) <= 1 and len(mints) <= 1 and not any(e.loop for e in out + mints),
                   f"{len(out)} payouts and {len(mints)} mints on one path", p, (out + mints)[0])
            items = p.accts("InboxItem")
            ok = len(items) == 1 and st(p, p.pre(items[0], "InboxItem"), "ReleaseAfter") is True
            rep.ob("payout-consumes-approval", p.where, ok, "tokens leave without an approved, unreleased inbox item", p, (out + mints)[0])
            ok = len(items) == 1 and p.written(items[0], "InboxItem") and st(p, p.post(items[0], "InboxItem"), "Released") is True
            rep.ob("payout-marks-released", p.where, ok, "the inbox item is not stored as released on a path that pays out", p, (out + mints)[0])
        for e, a in item_persists(p):
            if impossible(p, a):
                continue
            pre, post = p.pre(a, "InboxItem"), e.a[2]
            if p.created(a):
                ok = st(p, post, "NotApproved") or st(p, post, "ReleaseAfter")
                rep.ob("status-initial", p.where, bool(ok), "new inbox item starts in a state other than unapproved or approved", p, e)
            else:
                same = p.same(F(post, "release_status"), F(pre, "release_status"))
                a1 = st(p, pre, "NotApproved") and (st(p, post, "NotApproved") or st(p, post, "ReleaseAfter"))
                a2 = st(p, pre, "ReleaseAfter") and st(p, post, "Released")
                rep.ob("status-monotone", p.where, bool(same or a1 or a2), "release status moves backwards or skips a state", p, e)
            rep.ob("item-init-flag", p.where, p.holds(F(post, "init")) or p.same(F(post, "init"), F(pre, "init")) and not p.created(a),
                   "stored inbox item without its init flag", p, e)
            if p.root not in ("redeem",) + REL:
                rep.ob("item-writer", p.where, p.same(post, pre), "instruction changes an inbox item", p, e)
        for e in p.effects("close"):
            t = p.ty.get(e.a[0], "?")
            rep.ob("item-never-closed", p.where, not tmatch(t, "InboxItem"), "inbox item account is closed", p, e)
        for a in p.accts("InboxItem"):
            if p.created(a):
                rep.ob("item-created-by", p.where, p.root == "redeem", "inbox item created outside redeem", p)
    props_fns.inbox(rep, now, False)
    rep.floor("payout-once-per-call", 2)
    rep.floor("status-initial", 2)
    rep.floor("status-monotone", 4)


def redeem_paths(rep):
    for p in paths(rep, MGR, "redeem"):
        a = p.one("InboxItem")
        if impossible(p, a):
            # the stored-item invariant excludes it, but it must behave like a fresh item
            yield p, a, True
        else:
            yield p, a, p.created(a)


def c02(rep):
    for p, a, fresh in redeem_paths(rep):
        m = Msg(p)
        rt = F(p.pre(p.one("RegisteredTransceiver"), "RegisteredTransceiver"), "id")
        rtd = p.pre(p.one("RegisteredTransceiver"), "RegisteredTransceiver")
        cfg = p.pre(p.one("Config"), "Config")
        pre, post = p.pre(a, "InboxItem"), p.post(a, "InboxItem")
        en = F(cfg, "enabled_transceivers", "map")
        rep.ob("vote-needs-owner", p.where, p.same(owner(m.acc), F(rtd, "transceiver_address")),
               "message account is not checked to be owned by the voting transceiver's program", p)
        rep.ob("vote-needs-enabled", p.where, p.holds(tm.bit(en, rt)), "voting transceiver is not checked to be enabled", p)
        v0 = I(0) if fresh else F(pre, "votes", "map")
        v1 = F(post, "votes", "map")
        want = tm.setbit(v0, rt, tm.TRUE)
        rep.ob("vote-is-own-bit", p.where, p.written(a, "InboxItem") and p.same(v1, want), f"votes become {v1}", p)
        rep.ob("vote-kept", p.where, p.holds(F(post, "init")), "the item is not marked as in use, so the next attestation forgets the vote", p)
        ns = [mk("popcount", tm.comm("band", en, x)) for x in (want, v1)]       # the same bits: vote-is-own-bit
        thr = F(cfg, "threshold")
        rep.ob("threshold-nonzero", p.where, p.decide(eq(thr, I(0))) is False, "a zero threshold is not rejected", p)
        was = fresh or st(p, pre, "NotApproved")
        if was:
            if st(p, post, "NotApproved"):
                rep.ob("below-threshold-unapproved", p.where, any(p.decide(le(thr, n)) is False for n in ns),
                       "item left unapproved although enough enabled transceivers attested", p)
            else:
                rep.ob("approved-at-threshold", p.where, any(p.holds(le(thr, n)) for n in ns),
                       "item approved without threshold <= number of enabled attesting transceivers", p)
        else:
            rep.ob("reattest-no-status-change", p.where, p.same(F(post, "release_status"), F(pre, "release_status")), "status changes on a later attestation", p)
    for p in all_paths(rep, MGR):
        if p.root == "redeem":
            continue
        for e, a in item_persists(p):
            rep.ob("votes-only-in-redeem", p.where, p.same(F(e.a[2], "votes"), F(p.pre(a, "InboxItem"), "votes")), "votes change outside redeem", p, e)
            rep.ob("votes-kept", p.where, p.holds(F(e.a[2], "init")) or p.same(F(e.a[2], "init"), F(p.pre(a, "InboxItem"), "init")), "votes forgotten outside redeem", p, e)
            rep.ob("approval-only-in-redeem", p.where, not (st(p, e.a[2], "ReleaseAfter") and not st(p, p.pre(a, "InboxItem"), "ReleaseAfter"))
                   and st(p, e.a[2], "ReleaseAfter") is not None, "approval outside redeem", p, e)
    props_fns.votes(rep)
    rep.floor("approved-at-threshold", 3)
    rep.floor("below-threshold-unapproved", 3)


def recv_paths(rep, crate):
    for p in paths(rep, crate, "receive_wormhole_message"):
        yield p


def c03(rep):
    for p in paths(rep, MGR, "redeem"):
        m = Msg(p)
        peer = p.one("NttManagerPeer")
        pd = p.pre(peer, "NttManagerPeer")
        cfg = p.pre(p.one("Config"), "Config")
        w = p.where
        rep.ob("redeem-peer-of-source-chain", w, p.is_pda(peer, [X(b"peer"), be(m.from_chain, 2)]), "peer account is not the one registered for the message's source chain", p)
        rep.ob("redeem-source-is-peer", w, p.same(F(pd, "address"), m.source_mgr), "source manager is not compared with the registered peer", p)
        rep.ob("redeem-recipient-is-self", w, p.same(m.recipient_mgr, p.id), "recipient manager is not this program", p)
        rep.ob("redeem-to-this-chain", w, p.same(F(cfg, "chain_id", "id"), m.to_chain), "destination chain is not this chain", p)
        rt = p.pre(p.one("RegisteredTransceiver"), "RegisteredTransceiver")
        rep.ob("redeem-from-transceiver", w, p.same(owner(m.acc), F(rt, "transceiver_address")), "message account not owned by the transceiver program", p)
    for crate in (MGR, TRX):
        for p in recv_paths(rep, crate):
            w = p.where
            vaa = p.accts("PostedVaa")
            rep.need("recv-verified-vaa", w, len(vaa) == 1, "the message is not read from one verified wormhole message account")
            vd = p.pre(vaa[0], "PostedVaa")
            ec = F(vd, "meta", "emitter_chain")
            body = F(vd, "payload", "1", "message_data")
            peer = p.one("TransceiverPeer")
            rep.ob("recv-peer-of-emitter-chain", w, p.is_pda(peer, [X(b"transceiver_peer"), be(ec, 2)]), "peer account is not derived from the emitter chain", p)
            rep.ob("recv-emitter-is-peer", w, p.same(F(p.pre(peer, "TransceiverPeer"), "address"), F(vd, "meta", "emitter_address")),
                   "the emitter is not compared with the registered peer", p)
            cfg = p.one("Config")
            rep.ob("recv-to-this-chain", w, p.same(F(body, "ntt_manager_payload", "payload", "to_chain", "id"), F(p.pre(cfg, "Config"), "chain_id", "id")),
                   "destination chain is not compared with this chain", p)
            ms = p.accts("ValidatedTransceiverMessage")
            rep.need("recv-stores-message", w, len(ms) == 1 and p.created(ms[0]) and p.written(ms[0], "ValidatedTransceiverMessage"),
                     "the attested message is not stored in a freshly created account")
            rep.ob("recv-message-address", w, p.is_pda(ms[0], [X(b"transceiver_message"), be(ec, 2), F(body, "ntt_manager_payload", "id")]),
                   "message account is not derived from emitter chain and message id", p)
            v = p.post(ms[0], "ValidatedTransceiverMessage")
            rep.ob("recv-stores-source-chain", w, p.same(F(v, "from_chain", "id"), ec), f"stored source chain is {F(v, 'from_chain')}", p)
            rep.ob("recv-stores-content", w, p.same(F(v, "message"), body), "stored message differs from the attested one", p)
    # nobody else writes attested messages
    for p in all_paths(rep, MGR, TRX):
        for e in p.persists("ValidatedTransceiverMessage"):
            ok = p.root == "receive_wormhole_message" or p.same(e.a[2], mk("data", e.a[0], e.a[1]))
            rep.ob("message-writer", p.where, ok, "an attested message is written outside receive_wormhole_message", p, e)
    rep.floor("redeem-source-is-peer", 1)
    rep.floor("recv-emitter-is-peer", 2)


def c04(rep):
    for p, a, fresh in redeem_paths(rep):
        m = Msg(p)
        mint = p.one("Mint")
        cfg = p.pre(p.one("Config"), "Config")
        pre, post = p.pre(a, "InboxItem"), p.post(a, "InboxItem")
        rep.ob("redeem-mint", p.where, p.same(key(mint), F(cfg, "mint")), "decimals are not taken from the configured mint", p)
        if fresh:
            for q, v in sp_untrim(p, m.amount, m.decimals, F(p.pre(mint, "Mint"), "decimals")):
                rep.ob("item-amount", p.where, q.same(F(post, "amount"), v), f"recorded amount is {F(post, 'amount')}, expected {v}", q)
            rep.ob("item-recipient", p.where, p.same(F(post, "recipient_address"), m.to), f"recorded recipient is {F(post, 'recipient_address')}", p)
        else:
            for n in ("amount", "recipient_address", "bump", "init"):
                rep.ob("item-immutable", p.where, p.same(F(post, n), F(pre, n)), f"{n} of an existing inbox item changes", p)
    for p in all_paths(rep, MGR):
        if p.root == "redeem":
            continue
        for e, a in item_persists(p):
            for n in ("amount", "recipient_address", "bump", "init"):
                rep.ob("item-immutable", p.where, p.same(F(e.a[2], n), F(p.pre(a, "InboxItem"), n)), f"{n} of an existing inbox item changes", p, e)
    # payouts
    for root in REL:
        n = 0
        for p in paths(rep, MGR, root):
            a = p.one("InboxItem")
            pre = p.pre(a, "InboxItem")
            cfg = p.pre(p.one("Config"), "Config")
            if not (st(p, pre, "ReleaseAfter") and st(p, p.post(a, "InboxItem"), "Released")):
                continue
            n += 1
            w = p.where
            ops = [e for e in p.eff if e.kind in TOKEN_OPS]
            outs = [e for e in ops if e.kind == "transfer"]
            rep.need("payout-transfer", w, len(outs) == 1 and not outs[0].loop, f"{len(outs)} token transfers on the path that consumes the approval")
            o = outs[0].kw
            amt, rcp = F(pre, "amount"), F(pre, "recipient_address")
            rep.ob("payout-amount", w, p.same(o["amount"], amt), f"pays {o['amount']}", p, outs[0])
            rep.ob("payout-from-custody", w, p.same(key(o["src"]), F(cfg, "custody")), "source is not the custody account", p, outs[0])
            rep.ob("payout-mint", w, p.same(key(o["mint"]), F(cfg, "mint")), "mint is not the configured mint", p, outs[0])
            rep.ob("payout-decimals", w, p.same(o["decimals"], F(p.pre(o["mint"], "Mint"), "decimals")), "transfer_checked decimals are not the mint's", p, outs[0])
            tok = o["program_id"]
            d = key(o["dst"])
            dd = p.fullty(o["dst"], "TokenAccount")
            rep.ob("payout-recipient", w, p.same(d, mk("ata", rcp, F(cfg, "mint"), tok)) or dd is not None
                   and p.same(F(mk("data", o["dst"], dd), "owner"), rcp) and p.same(F(mk("data", o["dst"], dd), "mint"), F(cfg, "mint")),
                   "tokens do not go to a token account of the recorded recipient", p, outs[0])
            rep.ob("payout-authority", w, p.is_pda(o["auth"], [X(b"token_authority")]) and p.signs_for(o["seeds"], o["auth"]),
                   "transfer is not signed by the token authority", p, outs[0])
            mints = [e for e in ops if e.kind == "mint_to"]
            if root == "release_inbound_mint":
                rep.need("mint-before-payout", w, len(mints) == 1 and not mints[0].loop and p.eff.index(mints[0]) < p.eff.index(outs[0]), f"{len(mints)} mints before the payout")
                k = mints[0].kw
                rep.ob("mint-amount", w, p.same(k["amount"], amt), f"mints {k['amount']}", p, mints[0])
                rep.ob("mint-target", w, p.same(key(k["dst"]), F(cfg, "custody")) and p.same(key(k["mint"]), F(cfg, "mint")), "mints elsewhere", p, mints[0])
                rep.ob("mint-authority", w, p.is_pda(k["auth"], [X(b"token_authority")]) and p.signs_for(k["seeds"], k["auth"]), "mint not signed by the token authority", p, mints[0])
                rep.ob("no-other-token-op", w, len(ops) == 2, "further token operations", p)
            else:
                rep.ob("no-other-token-op", w, len(ops) == 1, "further token operations", p)
        rep.ob("payout-reachable", f"{MGR}::{root}", n > 0, "an approved item can never be paid out")
    props_fns.amounts(rep, ("untrim",))
    rep.floor("item-amount", 3)
    rep.floor("payout-amount", 2)


def c05(rep):
    for root in REL:
        for p in paths(rep, MGR, root):
            a = p.one("InboxItem")
            pre, post = p.pre(a, "InboxItem"), p.post(a, "InboxItem")
            t = payload(F(pre, "release_status"), "ReleaseAfter")
            moves = [e for e in p.eff if e.kind in TOKEN_OPS]
            arg = p.arg(0)
            rev = F(arg, "revert_on_delay") if arg is not None else None
            if moves or not p.same(pre, post):
                rep.ob("payout-not-early", p.where, st(p, pre, "ReleaseAfter") is True and p.holds(le(t, now)),
                       "tokens released or status changed before the release time", p, moves[0] if moves else None)
                rep.ob("released-paths-pay", p.where, bool(moves), "status changes without a payout", p)
            else:
                ok = st(p, pre, "NotApproved") or st(p, pre, "ReleaseAfter") and p.decide(le(t, now)) is False
                rep.ob("silent-only-when-delayed", p.where, bool(ok), "succeeds without paying although the item is releasable (or already released)", p)
                rep.ob("revert-on-delay", p.where, rev is not None and p.decide(rev) is False, "reports success without paying although the caller asked to fail on delay", p)
    # the time stored at approval is fixed afterwards: C01's status rule covers the variant, this one the value
    for p in all_paths(rep, MGR):
        for e, a in item_persists(p):
            if impossible(p, a) or p.created(a):
                continue
            pre = p.pre(a, "InboxItem")
            if st(p, e.a[2], "ReleaseAfter") and not st(p, pre, "NotApproved"):
                rep.ob("release-time-fixed", p.where, p.same(F(e.a[2], "release_status"), F(pre, "release_status")), "release time of an approved item changes", p, e)
            else:
                rep.ob("release-time-fixed", p.where, True)
    props_fns.inbox(rep, now)
    rep.floor("payout-not-early", 2)
    rep.floor("silent-only-when-delayed", 2)


def c22(rep):
    for p in paths(rep, MGR, "redeem"):
        a = p.one("InboxItem")
        m = Msg(p)
        rep.ob("item-content-address", p.where, p.is_pda(a, [X(b"inbox_item"), m.digest()]),
               "inbox item is not addressed by the hash of source chain and full manager message", p)
        if p.created(a):
            post = p.post(a, "InboxItem")
            rep.ob("item-bump", p.where, p.same(F(post, "bump"), p.bump([X(b"inbox_item"), m.digest()])), "stored bump is not the canonical one", p)
    for p in all_paths(rep, MGR):
        for a in p.accts("InboxItem"):
            if p.created(a):
                rep.ob("item-created-content-addressed", p.where, p.root == "redeem", "inbox item created elsewhere", p)
    rep.floor("item-content-address", 2)
