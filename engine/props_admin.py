"""Administration: C09, C14-C19, C33, C30, C34."""
import props_fns
from lib import *
import props_in
import props_out
from props_out import XFER, posts, moved

PROTO = ("transfer_burn", "transfer_lock", "redeem")
LIM = ("InboxRateLimit", "OutboxRateLimit")


def owner_signed(p):
    """the transaction carries the signature of the configured owner"""
    for c in p.accts("Config"):
        if p.created(c):
            continue
        o = F(mk("data", c, p.fullty(c, "Config")), "owner")
        for f, v in p.p.facts.items():
            if v and f.op == "fld" and f.a[1] == "is_signer" and p.same(key(f.a[0]), o):
                return True
    return False


def changed(p, e):
    return p.created(e.a[0]) or not p.same(e.a[2], mk("data", e.a[0], e.a[1]))


# ------------------------------------------------------------------ C14
def c14(rep):
    for p in all_paths(rep, MGR, TRX):
        why = None
        if moved(p):
            why = "moves tokens"
        elif p.crate == MGR and p.root in XFER:
            why = "accepts a transfer"
        elif [e for e in p.persists("ValidatedTransceiverMessage") if changed(p, e)]:
            why = "accepts an attestation"
        elif p.root in ("release_wormhole_outbound", "mark_outbox_item_as_released", "release_inbound_mint", "release_inbound_unlock"):
            why = "releases a queued transfer"
        elif [e for e in p.persists("OutboxItem") if changed(p, e) and not (e.a[2].op == "data")]:
            why = "changes an outbox item"
        if why:
            cs = p.accts("Config")
            ok = len(cs) == 1 and p.decide(F(p.pre(cs[0], "Config"), "paused")) is False
            rep.ob("not-while-paused", p.where, ok, f"{why} although the deployment is paused", p)
        for e in p.persists("Config"):
            if not p.created(e.a[0]) and p.root != "set_paused":
                rep.ob("pause-flag-writer", p.where, p.same(F(e.a[2], "paused"), F(mk("data", e.a[0], e.a[1]), "paused")), "pause flag changed", p, e)
    for p in paths(rep, MGR, "set_paused"):
        c = p.one("Config")
        a = p.arg(0)
        rep.ob("set-paused-stores", p.where, a is not None and p.written(c, "Config") and p.same(F(p.post(c, "Config"), "paused"), a), f"flag becomes {F(p.post(c, 'Config'), 'paused')}", p)
        rep.ob("set-paused-owner", p.where, owner_signed(p), "pause flag changed without the owner's signature", p)
    rep.floor("not-while-paused", 12)


# ------------------------------------------------------------------ C15
def c15(rep):
    M = "mode::Mode"
    for p in all_paths(rep, MGR, TRX):
        ops = moved(p)
        rel = p.root in ("transfer_burn", "transfer_lock", "release_inbound_mint", "release_inbound_unlock")
        if ops or rel:
            cs = p.accts("Config")
            rep.need("mode-config", p.where, len(cs) == 1, "no single config account")
            mode = F(p.pre(cs[0], "Config"), "mode")
            burning = any(e.kind in ("burn", "mint_to") for e in ops) or p.root in ("transfer_burn", "release_inbound_mint")
            want = "Burning" if burning else "Locking"
            rep.ob("mode-" + want.lower(), p.where, p.decide(var(mode, M, want)) is True or p.decide(eq(mode, agg(adt(M), want))) is True,
                   f"supply-changing and locking operations are not tied to the mode: {want} not required", p, ops[0] if ops else None)
            if p.root == "transfer_burn":
                rep.ob("burning-burns", p.where, [e.kind for e in ops] == ["transfer", "burn"], f"operations {[e.kind for e in ops]}", p)
            if p.root == "transfer_lock" or p.root == "release_inbound_unlock" and ops:
                rep.ob("locking-keeps-supply", p.where, [e.kind for e in ops] == ["transfer"], f"operations {[e.kind for e in ops]}", p)
            if p.root == "release_inbound_mint" and ops:
                rep.ob("burning-mints", p.where, [e.kind for e in ops] == ["mint_to", "transfer"], f"operations {[e.kind for e in ops]}", p)
        for e in p.persists("Config"):
            if not p.created(e.a[0]):
                rep.ob("mode-fixed", p.where, p.same(F(e.a[2], "mode"), F(mk("data", e.a[0], e.a[1]), "mode")), "mode changes after initialisation", p, e)
    rep.floor("mode-burning", 2)
    rep.floor("mode-locking", 2)


# ------------------------------------------------------------------ C16
WRITERS = {
    "owner": ("claim_ownership", "transfer_ownership_one_step_unchecked"),
    "pending_owner": ("claim_ownership", "transfer_ownership_one_step_unchecked", "transfer_ownership"),
    "paused": ("set_paused",),
    "next_transceiver_id": ("register_transceiver",),
    "enabled_transceivers": ("register_transceiver",),
    "bump": (), "mint": (), "token_program": (), "mode": (), "chain_id": (), "threshold": (), "custody": (),
}


def c16(rep):
    for p in all_paths(rep, MGR, TRX):
        for e in p.persists("Config"):
            a, t, v = e.a
            if p.created(a):
                rep.ob("config-created-by-initialize", p.where, p.crate == MGR and p.root == "initialize", "config created elsewhere", p, e)
                continue
            pre = mk("data", a, t)
            fs = tm._FIELDIDX.get((t, "Config"))
            rep.need("config-fields", p.where, bool(fs), "layout of the configuration unknown")
            for n in fs:
                if n not in WRITERS:
                    rep.ob("config-field-writer", f"{p.where}.{n}", p.same(F(v, n), F(pre, n)) or owner_signed(p), f"{n} changed without the owner", p, e)
                    continue
                if p.root not in WRITERS[n]:
                    rep.ob("config-field-writer", f"{p.where}.{n}", p.same(F(v, n), F(pre, n)), f"{n} is changed by {p.root}", p, e)
            if not p.same(v, pre) and p.root != "claim_ownership":
                rep.ob("config-needs-owner", p.where, owner_signed(p), "configuration changed without the owner's signature", p, e)
        for ty in ("NttManagerPeer", "TransceiverPeer", "RegisteredTransceiver"):
            for e in p.persists(ty):
                if changed(p, e):
                    rep.ob("registry-needs-owner", f"{p.where}/{ty}", owner_signed(p), f"{ty} written without the owner's signature", p, e)
        for ty in LIM:
            for e in p.persists(ty):
                pre = mk("data", e.a[0], e.a[1])
                if not changed(p, e) or p.root == "initialize" and p.created(e.a[0]):
                    continue
                if p.root in PROTO and p.crate == MGR:
                    rep.ob("limit-value-fixed", f"{p.where}/{ty}", not p.created(e.a[0]) and p.same(F(e.a[2], "rate_limit", "limit"), F(pre, "rate_limit", "limit")),
                           "a transfer changes the configured limit", p, e)
                else:
                    rep.ob("limit-needs-owner", f"{p.where}/{ty}", owner_signed(p), "rate limit changed without the owner's signature", p, e)
        for e in p.effects("set_upgrade_authority"):
            if p.root != "claim_ownership":
                rep.ob("upgrade-needs-owner", p.where, owner_signed(p), "upgrade authority changed without the owner's signature", p, e)
    for crate, root in ((MGR, "set_peer"), (MGR, "set_inbound_limit"), (MGR, "set_outbound_limit"), (MGR, "register_transceiver"), (MGR, "set_paused"),
                        (MGR, "transfer_ownership"), (MGR, "transfer_ownership_one_step_unchecked"), (MGR, "set_wormhole_peer"), (TRX, "set_wormhole_peer")):
        for p in paths(rep, crate, root):
            rep.ob("admin-needs-owner", p.where, owner_signed(p), "administrative instruction without the owner's signature", p)
    rep.floor("admin-needs-owner", 9)


# ------------------------------------------------------------------ C17
def upgrade(p):
    es = p.effects("set_upgrade_authority")
    return es


def same_prog_data(p, acc):
    """acc is this program's program-data account under the upgradeable loader"""
    for f, v in p.p.facts.items():
        if v and f.op == "program" and tmatch(f.a[1], "BpfLoaderUpgradeable"):
            if p.same(key(acc), mk("pda", p.id, key(f.a[0]))):
                return f.a[0]
    return None


def acc_in(t):
    for y in tm.subterms(t):
        if y.op == "acc":
            return y
    return None


def c17(rep):
    by = {"pending owner": False, "current owner": False}
    for root in ("transfer_ownership", "transfer_ownership_one_step_unchecked", "claim_ownership"):
        for p in paths(rep, MGR, root):
            w = p.where
            c = p.one("Config")
            pre, post = p.pre(c, "Config"), p.post(c, "Config")
            es = upgrade(p)
            rep.need("upgrade-authority-moves", w, len(es) == 1 and not es[0].loop, f"{len(es)} upgrade authority changes")
            k = es[0].kw
            a = k["accounts"]
            pd, cur, new = acc_in(F(a, "program_data")), acc_in(F(a, "current_authority")), acc_in(F(a, "new_authority"))
            rep.need("upgrade-accounts", w, None not in (pd, cur, new), "unexpected accounts")
            ld = same_prog_data(p, pd)
            rep.ob("upgrade-this-program", w, ld is not None and k["program"] is ld, "not this program's program data, or not the upgradeable loader", p, es[0])
            lock = [X(b"upgrade_lock")]
            po = F(pre, "pending_owner")
            isnone = p.decide(isv(po, "core::option::Option", "None"))
            if root == "transfer_ownership":
                rep.ob("transfer-owner-signed", w, owner_signed(p) and p.signed(cur) and p.same(key(cur), F(pre, "owner")), "not signed by the owner", p)
                npo = F(post, "pending_owner")
                rep.ob("transfer-sets-pending", w, p.written(c, "Config") and npo.op == "agg" and npo.a[1] == "Some" and acc_in(npo) is not None and p.same(F(post, "owner"), F(pre, "owner")),
                       f"owner {F(post, 'owner')}, pending {npo}", p)
                rep.ob("transfer-locks-upgrade", w, p.is_pda(new, lock), "upgrade authority not handed to the lock", p, es[0])
            elif root == "transfer_ownership_one_step_unchecked":
                rep.ob("transfer-owner-signed", w, owner_signed(p) and p.signed(cur) and p.same(key(cur), F(pre, "owner")), "not signed by the owner", p)
                rep.ob("onestep-sets-owner", w, p.written(c, "Config") and p.same(F(post, "owner"), key(new)), f"owner {F(post, 'owner')}, upgrade authority to {key(new)}", p)
                rep.ob("pending-cleared", w, p.decide(isv(F(post, "pending_owner"), "core::option::Option", "None")) is True, "pending owner remains", p)
            else:
                no = F(post, "owner")
                who = new
                ok = p.same(key(who), F(pre, "owner")) or (isnone is False and p.same(key(who), payload(po, "Some")))
                some = isv(po, "core::option::Option", "Some")
                mine, theirs = eq(key(who), F(pre, "owner")), eq(key(who), payload(po, "Some"))
                by["pending owner"] = by["pending owner"] or possible(p, some, theirs, (mine, False))
                by["current owner"] = by["current owner"] or possible(p, some, mine, (theirs, False))
                rep.ob("claim-by-pending-or-owner", w, ok and p.signed(who), "claimed by somebody other than the pending or current owner", p)
                rep.ob("claim-sets-owner", w, p.written(c, "Config") and p.same(no, key(who)), f"owner becomes {no}", p)
                rep.ob("pending-cleared", w, p.decide(isv(F(post, "pending_owner"), "core::option::Option", "None")) is True, "pending owner remains", p)
                rep.ob("claim-from-lock", w, p.is_pda(cur, lock) and p.signs_for(k["seeds"], cur), "upgrade authority not taken from the lock", p, es[0])
    for p in all_paths(rep, MGR, TRX, QTR):
        if p.root in ("transfer_ownership", "transfer_ownership_one_step_unchecked", "claim_ownership"):
            continue
        rep.ob("upgrade-authority-untouched", p.where, not upgrade(p), "upgrade authority moved outside ownership instructions", p)
        for e in p.persists("Config"):
            if not p.created(e.a[0]):
                pre = mk("data", e.a[0], e.a[1])
                rep.ob("owner-untouched", p.where, p.same(F(e.a[2], "owner"), F(pre, "owner")) and p.same(F(e.a[2], "pending_owner"), F(pre, "pending_owner")), "owner changed", p, e)
    for n, ok in by.items():
        rep.ob("claim-possible", f"claim_ownership by the {n}", ok, f"the {n} cannot complete or cancel a pending transfer")
    rep.floor("transfer-sets-pending", 1)


# ------------------------------------------------------------------ C18
def c18(rep):
    for p in paths(rep, MGR, "initialize"):
        w = p.where
        a = p.arg(0)
        rep.need("init-arguments", w, a is not None, "arguments not used")
        c = p.one("Config")
        v = p.post(c, "Config")
        rep.ob("init-once", w, p.created(c) and p.is_pda(c, [X(b"config")]), "configuration is not a fresh account at its fixed address", p)
        own = F(v, "owner")
        pds = p.accts("ProgramData")
        rep.need("init-program-data", w, len(pds) == 1, "no program data account")
        ua = F(p.pre(pds[0], "ProgramData"), "upgrade_authority_address")
        signers = [f.a[0] for f, x in p.p.facts.items() if x and f.op == "fld" and f.a[1] == "is_signer"]
        o = "core::option::Option"
        okauth = p.decide(isv(ua, o, "Some")) and p.same(own, payload(ua, "Some")) or p.decide(isv(ua, o, "None")) and p.same(own, X(bytes(32)))
        rep.ob("init-by-upgrade-authority", w, bool(okauth) and any(p.same(key(s), own) for s in signers) and same_prog_data(p, pds[0]) is not None,
               "owner is not the signing upgrade authority of this program", p)
        mint = p.one("Mint")
        rep.ob("init-mint", w, p.same(F(v, "mint"), key(mint)), f"mint {F(v, 'mint')}", p)
        rep.ob("init-token-program", w, any(f.op == "program" and x and tmatch(f.a[1], "TokenInterface") and p.same(F(v, "token_program"), key(f.a[0])) for f, x in p.p.facts.items()),
               "token program is not a verified token program", p)
        rep.ob("init-custody", w, p.same(F(v, "custody"), mk("ata", p.pda([X(b"token_authority")]), F(v, "mint"), F(v, "token_program"))),
               f"custody {F(v, 'custody')} is not the token authority's associated account", p)
        rep.ob("init-mode", w, p.same(F(v, "mode"), F(a, "mode")), "mode", p)
        rep.ob("init-chain", w, p.same(F(v, "chain_id", "id"), F(a, "chain_id")), "chain id", p)
        rep.ob("init-no-pending", w, p.decide(isv(F(v, "pending_owner"), o, "None")) is True, "pending owner", p)
        rep.ob("init-unpaused", w, p.decide(F(v, "paused")) is False, "starts paused", p)
        rep.ob("init-no-transceivers", w, p.same(F(v, "next_transceiver_id"), I(0)) and p.same(F(v, "enabled_transceivers", "map"), I(0)), "transceivers preset", p)
        th = F(v, "threshold")
        rep.ob("init-threshold", w, th.op == "int" and th.a[0] >= 1, f"threshold {th}", p)
        ma = F(p.pre(mint, "Mint"), "mint_authority")
        lock = p.decide(var(F(a, "mode"), "mode::Mode", "Locking"))
        if lock is None:
            lock = p.decide(eq(F(a, "mode"), agg(adt("mode::Mode"), "Locking")))
        auth = any(x and f.op == "eq" and p.pda([X(b"token_authority")]) in (p.p.nf(f.a[0]), p.p.nf(f.a[1]), f.a[0], f.a[1]) for f, x in p.p.facts.items())
        rep.ob("init-mint-authority", w, lock is True or mint_auth(p, ma), "burning mode without mint authority", p)
        r = p.one("OutboxRateLimit")
        rl = F(p.post(r, "OutboxRateLimit"), "rate_limit")
        rep.ob("init-limit", w, p.created(r) and p.is_pda(r, [X(b"outbox_rate_limit")]) and p.same(F(rl, "limit"), F(a, "limit"))
               and p.same(F(rl, "capacity_at_last_tx"), F(a, "limit")) and p.same(F(rl, "last_tx_timestamp"), I(0)), "outbound limiter", p)
    for p in all_paths(rep, MGR):
        if p.root != "initialize":
            for ty in ("Config", "OutboxRateLimit"):
                for e in p.persists(ty):
                    rep.ob("no-reinitialise", p.where, not p.created(e.a[0]), f"{ty} created outside initialize", p, e)
        for e in p.effects("close"):
            rep.ob("never-closed", p.where, False, "a manager account is closed", p, e)
    rep.floor("init-mint-authority", 2)


def mint_auth(p, ma):
    ta = p.pda([X(b"token_authority")])
    for v in ("Some",):
        x = payload(ma, v)
        if p.same(x, ta) or any(p.same(y, ta) for y in (fld(x, "0"),)):
            return True
    for f, v in p.p.facts.items():
        if v and f.op == "eq":
            for x, y in (f.a, f.a[::-1]):
                if p.same(x, ta) and ma in tm.subterms(y):
                    return True
    return False


# ------------------------------------------------------------------ C19
def c19(rep):
    full = False
    for p in paths(rep, MGR, "register_transceiver"):
        w = p.where
        c, r = p.one("Config"), p.one("RegisteredTransceiver")
        pre, post = p.pre(c, "Config"), p.post(c, "Config")
        v = p.post(r, "RegisteredTransceiver")
        i = F(pre, "next_transceiver_id")
        addr = F(v, "transceiver_address")
        rep.ob("reg-fresh", w, p.created(r) and p.is_pda(r, [X(b"registered_transceiver"), addr]), "record is not created fresh at the transceiver's own address", p)
        rep.ob("reg-id", w, p.same(F(v, "id"), i), f"id {F(v, 'id')}", p)
        rep.ob("reg-next", w, p.written(c, "Config") and p.same(F(post, "next_transceiver_id"), add(i, I(1))), f"next id {F(post, 'next_transceiver_id')}", p)
        rep.ob("reg-enables-itself", w, p.same(F(post, "enabled_transceivers", "map"), tm.setbit(F(pre, "enabled_transceivers", "map"), i, tm.TRUE)),
               f"enabled {F(post, 'enabled_transceivers', 'map')}", p)
        full = full or possible(p, eq(i, I(127), True))
        rep.ob("reg-capacity", w, p.holds(le(i, I(127))), "more transceivers than the bitmap can hold", p)
        a = acc_in(addr)
        rep.ob("reg-executable", w, a is not None and p.same(addr, key(a)) and p.holds(fld(a, "executable")), "registered address is not an executable program", p)
    for p in all_paths(rep, MGR, TRX):
        for e in p.persists("RegisteredTransceiver"):
            if p.root != "register_transceiver":
                rep.ob("reg-immutable", p.where, not changed(p, e), "transceiver record changed", p, e)
        for e in p.persists("Config"):
            if p.created(e.a[0]) or p.root == "register_transceiver":
                continue
            pre = mk("data", e.a[0], e.a[1])
            rep.ob("reg-only-writer", p.where, all(p.same(F(e.a[2], n), F(pre, n)) for n in ("next_transceiver_id", "enabled_transceivers")), "transceiver set changed", p, e)
    props_fns.bitmap(rep)
    rep.ob("reg-last-slot", "register_transceiver", full, "the last of the 128 ids is refused")
    rep.floor("reg-id", 1)


# ------------------------------------------------------------------ C33
def c33(rep):
    for p in paths(rep, MGR, "set_peer"):
        w = p.where
        a = p.arg(0)
        rep.need("peer-arguments", w, a is not None, "arguments not used")
        ch = F(a, "chain_id", "id")
        pa, la = p.one("NttManagerPeer"), p.one("InboxRateLimit")
        v, l = p.post(pa, "NttManagerPeer"), p.post(la, "InboxRateLimit")
        sp, sl = [X(b"peer"), be(ch, 2)], [X(b"inbox_rate_limit"), be(ch, 2)]
        rep.ob("peer-address-per-chain", w, p.is_pda(pa, sp) and p.same(F(v, "bump"), p.bump(sp)), "peer record is not the one of the given chain", p)
        rep.ob("peer-stored", w, p.written(pa, "NttManagerPeer") and p.same(F(v, "address"), F(a, "address")) and p.same(F(v, "token_decimals"), F(a, "token_decimals")), "peer record", p)
        rep.ob("peer-limiter-per-chain", w, p.is_pda(la, sl) and p.same(F(l, "bump"), p.bump(sl)), "limiter is not the one of the given chain", p)
        rep.ob("peer-limit", w, p.written(la, "InboxRateLimit") and p.same(F(l, "rate_limit", "limit"), F(a, "limit")), "inbound limit", p)
    for crate in (MGR, TRX):
        for p in paths(rep, crate, "set_wormhole_peer"):
            w = p.where
            a = p.arg(0)
            rep.need("peer-arguments", w, a is not None, "arguments not used")
            t = p.one("TransceiverPeer")
            v = p.post(t, "TransceiverPeer")
            s = [X(b"transceiver_peer"), be(F(a, "chain_id", "id"), 2)]
            rep.ob("transceiver-peer-once", w, p.created(t), "an existing transceiver peer can be replaced", p)
            rep.ob("transceiver-peer-per-chain", w, p.is_pda(t, s) and p.same(F(v, "bump"), p.bump(s)), "peer record is not the one of the given chain", p)
            rep.ob("transceiver-peer-stored", w, p.same(F(v, "address"), F(a, "address")), f"address {F(v, 'address')}", p)
    for p in all_paths(rep, MGR, TRX):
        for e in p.persists("NttManagerPeer"):
            if p.root != "set_peer":
                rep.ob("peer-only-writer", p.where, not changed(p, e), "peer changed", p, e)
        for e in p.persists("TransceiverPeer"):
            if p.root != "set_wormhole_peer":
                rep.ob("peer-only-writer", p.where, not changed(p, e), "transceiver peer changed", p, e)
    rep.floor("peer-stored", 1)
    rep.floor("transceiver-peer-once", 2)


# ------------------------------------------------------------------ C09
def c09(rep):
    for root, ty in (("set_outbound_limit", "OutboxRateLimit"), ("set_inbound_limit", "InboxRateLimit")):
        for p in paths(rep, MGR, root):
            w = p.where
            a = p.arg(0)
            rep.need("limit-arguments", w, a is not None, "arguments not used")
            acc, pre, post = props_out.rl(p, ty)
            if ty == "InboxRateLimit":
                rep.ob("limit-of-chain", w, p.is_pda(acc, [X(b"inbox_rate_limit"), be(F(a, "chain_id", "id"), 2)]), "limiter of another chain", p)
            new, old = F(a, "limit"), F(pre, "limit")
            rep.ob("limit-stored", w, p.written(acc, ty) and p.same(F(post, "limit"), new) and p.same(F(post, "last_tx_timestamp"), now), "limit or time", p)
            for q, cap in sp_capacity(p, pre):
                got = F(post, "capacity_at_last_tx")
                for ok, q1 in props_fns.set_limit_cases(q, cap, new, old, got):
                    rep.ob("limit-capacity", w, ok, f"capacity becomes {got}", q1)
    for p in all_paths(rep, MGR):
        for ty in LIM:
            for e in p.persists(ty):
                if not changed(p, e):
                    continue
                w = f"{p.where}/{ty}"
                v = F(e.a[2], "rate_limit")
                pre = F(mk("data", e.a[0], e.a[1]), "rate_limit")
                if p.root in ("initialize", "set_peer"):
                    rep.ob("limiter-new", w, p.same(F(v, "capacity_at_last_tx"), F(v, "limit")) and p.same(F(v, "last_tx_timestamp"), I(0)), "new limiter does not start full", p, e)
                    continue
                if p.root in ("set_outbound_limit", "set_inbound_limit"):
                    continue
                if not rep.ob("limiter-writer", w, p.root in PROTO, "limiter changed by another instruction", p, e):
                    continue
                rep.ob("limiter-clock", w, p.same(F(v, "last_tx_timestamp"), now) and p.same(F(v, "limit"), F(pre, "limit")), "time or limit of the limiter", p, e)
                got = F(v, "capacity_at_last_tx")
                # either consumed or refilled, from the capacity available now
                ok = True
                for q, cap, amt in [(q2, c2, a2) for q1, a2 in used_amount(p) for q2, c2 in sp_capacity(q1, pre)]:
                    c1 = q.same(got, sub(cap, amt)) and q.holds(le(amt, cap))
                    c2 = all(q2.same(got, x) for q2, x in props_out.sp_refill(q, pre, amt))
                    ok = ok and (c1 or c2)
                rep.ob("limiter-arithmetic", w, ok, f"capacity becomes {got}", p, e)
    props_fns.ratelimit(rep, now)
    rep.floor("limit-capacity", 2)
    rep.floor("limiter-arithmetic", 8)


def used_amount(p):
    if p.root == "redeem":
        m = Msg(p)
        return sp_untrim(p, m.amount, m.decimals, F(p.pre(p.one("Mint"), "Mint"), "decimals"))
    d = [e for e in p.effects("transfer")]
    if len(d) != 1:
        raise Broken("one-deposit", p.where, f"{len(d)} deposits")
    return [(p, d[0].kw["amount"])]
