"""Relay quoter: C25-C27."""
from lib import *
from props_gov import facts_signers

GWEI = I(10 ** 9)


class Req:
    def __init__(self, p):
        self.arg = p.arg(0)
        if self.arg is None:
            raise Broken("arguments", p.where, "request arguments are not used")
        self.inst = p.pre(p.one("Instance"), "Instance")
        self.chain_acc, self.ntt_acc = p.one("RegisteredChain"), p.one("RegisteredNtt")
        self.chain, self.ntt = p.pre(self.chain_acc, "RegisteredChain"), p.pre(self.ntt_acc, "RegisteredNtt")
        self.req = p.one("RelayRequest")
        self.drop, self.max_fee = F(self.arg, "gas_dropoff"), F(self.arg, "max_fee")
        # the outbox item: the account whose bytes carry that discriminator
        want = disc("OutboxItem")
        c = set()
        for f, v in p.p.facts.items():
            if v and f.op == "eq":
                for x, y in (f.a, f.a[::-1]):
                    if x is want and y.op == "slice" and y.a[0].op == "rawdata" and y.a[1] == I(0) and y.a[2] == I(8):
                        c.add(y.a[0].a[0])
        for a in p.accts("OutboxItem"):
            c.add(a)
        if len(c) != 1:
            raise Broken("request-outbox-item", p.where, "the transfer account is not checked to be an outbound transfer record")
        self.item = c.pop()


def fee(r):
    g = div(mul(F(r.chain, "gas_price"), F(r.ntt, "gas_cost")), GWEI)
    usd = div(mul(add(r.drop, g), F(r.chain, "native_price")), GWEI)
    return div(mul(add(usd, F(r.chain, "base_price")), GWEI), F(r.inst, "sol_price"))


def c25(rep):
    full = False
    for p in paths(rep, QTR, "request_relay"):
        w = p.where
        r = Req(p)
        want = fee(r)
        cr = [e for e in p.effects("sys_create") if e.a[0] is r.req]
        rep.need("fee-account", w, len(cr) == 1, "the request record is not created once")
        rent = mk("rentmin", cr[0].a[1])
        tr = p.effects("sys_transfer")
        rep.ob("fee-transfers", w, len(tr) <= 1 and not any(e.loop for e in tr), f"{len(tr)} lamport transfers", p)
        paid = I(0)
        for e in tr:
            rep.ob("fee-payee", w, e.a[1] is r.req and p.signed(e.a[0]), "fee not paid by a signer into the request record", p, e)
            paid = add(paid, e.a[2])
        for b, q in p.cases(le(want, rent)):
            total = rent if b else want
            rep.ob("fee-amount", w, q.same(add(paid, rent), total), f"charges {paid} on top of the rent, expected {want} in total", q, tr[0] if tr else None)
            full = full or possible(q, eq(total, r.max_fee, True))
            rep.ob("fee-max", w, q.holds(le(total, r.max_fee)), "charge is not bounded by the maximum the payer stated", q)
        rep.ob("fee-sol-price", w, p.decide(eq(F(r.inst, "sol_price"), I(0))) is False, "zero price accepted", p)
    for p in all_paths(rep, QTR):
        if p.root != "request_relay":
            rep.ob("fee-only-here", p.where, not p.effects("sys_transfer"), "lamports moved by another instruction", p)
    rep.ob("fee-equal-to-max-accepted", "request_relay", full, "a price equal to the payer's maximum is refused")
    rep.floor("fee-amount", 2)


def c26(rep):
    full = False
    for p in paths(rep, QTR, "request_relay"):
        w = p.where
        r = Req(p)
        if p.accts("OutboxItem"):
            o = p.pre(r.item, "OutboxItem")
            released, ch = F(o, "released", "map"), F(o, "recipient_chain", "id")
        else:
            released, ch = rawle(r.item, 123, 16), rawle(r.item, 49, 2)
        rep.ob("request-chain", w, p.is_pda(r.chain_acc, [X(b"registered_chain"), be(ch, 2)]), "prices of another chain than the transfer's destination", p)
        rep.ob("request-ntt", w, p.is_pda(r.ntt_acc, [X(b"registered_ntt"), owner(r.item)]), "registration of another program than the transfer's owner", p)
        rep.ob("request-released", w, p.holds(tm.bit(released, F(r.ntt, "wormhole_transceiver_index"))), "transfer not yet sent by the registered transceiver is accepted", p)
        rep.ob("request-chain-enabled", w, p.decide(eq(F(r.chain, "base_price"), I(U64))) is False, "relaying to a disabled chain is accepted", p)
        full = full or possible(p, eq(r.drop, F(r.chain, "max_gas_dropoff"), True))
        rep.ob("request-dropoff-bound", w, p.holds(le(r.drop, F(r.chain, "max_gas_dropoff"))), "gas drop-off above the chain's maximum is accepted", p)
        rep.ob("request-once", w, p.created(r.req) and p.is_pda(r.req, [X(b"relay_request"), key(r.item)]), "the request record is not created fresh for this transfer", p)
        rep.ob("request-dropoff-recorded", w, p.written(r.req, "RelayRequest") and p.same(F(p.post(r.req, "RelayRequest"), "requested_gas_dropoff"), r.drop),
               f"recorded drop-off {F(p.post(r.req, 'RelayRequest'), 'requested_gas_dropoff')}", p)
    for p in all_paths(rep, QTR):
        for e in p.persists("RelayRequest"):
            if p.root != "request_relay":
                rep.ob("request-immutable", p.where, p.same(e.a[2], mk("data", e.a[0], e.a[1])), "a stored request changes", p, e)
        for e in p.effects("close"):
            if any(tmatch(t, "RelayRequest") for t in p.tys.get(e.a[0], [])):
                rep.ob("request-closer", p.where, p.root == "close_relay", "request closed elsewhere", p, e)
    for p in paths(rep, QTR, "close_relay"):
        inst = p.pre(p.one("Instance"), "Instance")
        cl = p.effects("close")
        rep.ob("close-pays-recipient", p.where, len(cl) == 1 and p.same(key(cl[0].a[1]), F(inst, "fee_recipient")), "the balance does not go to the fee recipient", p, cl[0] if cl else None)
        rep.ob("close-the-request", p.where, len(cl) == 1 and cl[0].a[0] in p.accts("RelayRequest"), "another account is closed", p, cl[0] if cl else None)
        rep.ob("close-authorised", p.where, role(p, True), "closed by somebody other than owner or assistant", p)
    rep.ob("request-full-dropoff-accepted", "request_relay", full, "a drop-off of exactly the chain's maximum is refused")
    roles_accepted(rep, "close_relay")
    rep.floor("request-released", 1)
    rep.floor("close-pays-recipient", 1)


def role(p, assistant):
    for c in p.accts("Instance"):
        if p.created(c):
            continue
        d = mk("data", c, p.fullty(c, "Instance"))
        for s in facts_signers(p):
            if p.same(key(s), F(d, "owner")) or assistant and p.same(key(s), F(d, "assistant")):
                return True
    return False


def roles_accepted(rep, root, assistant=True):
    """neither role is locked out, whatever the other one is"""
    ok = {"owner": False, "assistant": False}
    z = X(bytes(32))
    for p in paths(rep, QTR, root):
        for c in p.accts("Instance"):
            d = mk("data", c, p.fullty(c, "Instance"))
            o, a = F(d, "owner"), F(d, "assistant")
            for s in facts_signers(p):
                ok["owner"] = ok["owner"] or possible(p, eq(key(s), o), (eq(key(s), a), False), (eq(a, z), False))
                ok["assistant"] = ok["assistant"] or possible(p, eq(key(s), a), (eq(key(s), o), False))
    rep.ob("owner-not-locked-out", root, ok["owner"], "the owner is refused")
    if assistant:
        rep.ob("assistant-not-locked-out", root, ok["assistant"], "the assistant is refused")


OWNER_ONLY = {"owner": (), "assistant": ("set_assistant",), "fee_recipient": ("set_fee_recipient",), "sol_price": ("update_sol_price",)}
CHAIN_W = {"bump": (), "max_gas_dropoff": ("update_chain_params",), "base_price": ("update_chain_params",), "native_price": ("update_chain_prices",), "gas_price": ("update_chain_prices",)}


def c27(rep):
    for p in all_paths(rep, QTR):
        w = p.where
        for e in p.persists("Instance"):
            a, t, v = e.a
            if p.created(a):
                rep.ob("instance-creator", w, p.root == "initialize", "instance created elsewhere", p, e)
                continue
            pre = mk("data", a, t)
            for n in tm._FIELDIDX[(t, "Instance")]:
                if p.same(F(v, n), F(pre, n)):
                    rep.ob("instance-field", f"{w}.{n}", True)
                    continue
                ok = p.root in OWNER_ONLY.get(n, ()) and role(p, n == "sol_price")
                rep.ob("instance-field", f"{w}.{n}", ok, f"{n} changed without the required authority", p, e)
        for e in p.persists("RegisteredChain"):
            a, t, v = e.a
            if p.created(a):
                rep.ob("chain-register", w, p.root == "register_chain" and role(p, True), "chain registered without authority", p, e)
                rep.ob("chain-starts-disabled", w, p.same(F(v, "base_price"), I(U64)), "new chain is usable before its prices are set", p, e)
                continue
            pre = mk("data", a, t)
            for n in tm._FIELDIDX[(t, "RegisteredChain")]:
                if not p.same(F(v, n), F(pre, n)):
                    rep.ob("chain-field", f"{w}.{n}", p.root in CHAIN_W.get(n, ()) and role(p, True), f"{n} changed without the required authority", p, e)
        for e in p.persists("RegisteredNtt"):
            a, t, v = e.a
            if p.created(a):
                rep.ob("ntt-register", w, p.root == "register_ntt" and role(p, True), "program registered without authority", p, e)
            else:
                rep.ob("ntt-immutable", w, p.same(v, mk("data", a, t)), "registration changed in place", p, e)
        for e in p.effects("close"):
            rep.ob("close-needs-role", w, role(p, True), "account closed without authority", p, e)
    for p in paths(rep, QTR, "initialize"):
        w = p.where
        c = p.one("Instance")
        v = p.post(c, "Instance")
        pds = p.accts("ProgramData")
        rep.need("init-program-data", w, len(pds) == 1, "no program data account")
        ua = F(p.pre(pds[0], "ProgramData"), "upgrade_authority_address")
        rep.ob("init-by-upgrade-authority", w, p.decide(isv(ua, "core::option::Option", "Some")) is True and p.same(F(v, "owner"), payload(ua, "Some"))
               and any(p.same(key(s), F(v, "owner")) for s in facts_signers(p)), "owner is not the signing upgrade authority", p)
        rep.ob("init-this-program", w, p.same(key(pds[0]), mk("pda", p.id, LOADER)), "program data of another program", p)
        rep.ob("init-once", w, p.created(c) and p.is_pda(c, [X(b"instance")]), "instance not created fresh at its fixed address", p)
        rep.ob("init-fee-recipient", w, p.decide(eq(F(v, "fee_recipient"), X(bytes(32)))) is False, "zero fee recipient accepted", p)
        rep.ob("init-no-assistant", w, p.same(F(v, "assistant"), X(bytes(32))), "assistant preset", p)
    for root, n, check in (("set_fee_recipient", "fee_recipient", "nz"), ("update_sol_price", "sol_price", "nz0")):
        for p in paths(rep, QTR, root):
            v = F(p.post(p.one("Instance"), "Instance"), n)
            z = X(bytes(32)) if check == "nz" else I(0)
            rep.ob(f"{root}-nonzero", p.where, p.decide(eq(v, z)) is False, f"zero {n} accepted", p)
            rep.ob("instance-update-stored", p.where, p.written(p.one("Instance"), "Instance"), "update not stored", p)
    for p in paths(rep, QTR, "update_sol_price"):
        rep.ob("update-stores-argument", p.where, p.arg(0) is not None and p.same(F(p.post(p.one("Instance"), "Instance"), "sol_price"), F(p.arg(0), "sol_price")), "price", p)
    for root in ("update_chain_prices", "update_chain_params"):
        for p in paths(rep, QTR, root):
            c = p.one("RegisteredChain")
            v = p.post(c, "RegisteredChain")
            for n, ws in CHAIN_W.items():
                if root in ws:
                    rep.ob("update-stores-argument", p.where, p.written(c, "RegisteredChain") and p.arg(0) is not None and p.same(F(v, n), F(p.arg(0), n)), f"{n} becomes {F(v, n)}", p)
    for p in paths(rep, QTR, "register_chain"):
        c = p.one("RegisteredChain")
        s = [X(b"registered_chain"), be(F(p.arg(0), "chain_id"), 2)] if p.arg(0) is not None else []
        rep.ob("register-address", p.where, bool(s) and p.is_pda(c, s) and p.same(F(p.post(c, "RegisteredChain"), "bump"), p.bump(s)), "chain record is not the one of the given chain", p)
    for p in paths(rep, QTR, "register_ntt"):
        c = p.one("RegisteredNtt")
        v = p.post(c, "RegisteredNtt")
        rep.need("register-arguments", p.where, p.arg(0) is not None, "arguments not used")
        s = [X(b"registered_ntt"), F(p.arg(0), "ntt_program_id")]
        rep.ob("register-address", p.where, p.is_pda(c, s) and p.same(F(v, "bump"), p.bump(s)), "record is not the one of the given program", p)
        for n in ("wormhole_transceiver_index", "gas_cost"):
            rep.ob("register-stores", p.where, p.same(F(v, n), F(p.arg(0), n)), f"{n} becomes {F(v, n)}", p)
    for p in paths(rep, QTR, "deregister_ntt"):
        c = p.one("RegisteredNtt")
        rep.need("register-arguments", p.where, p.arg(0) is not None, "arguments not used")
        rep.ob("deregister-address", p.where, p.is_pda(c, [X(b"registered_ntt"), F(p.arg(0), "ntt_program_id")]) and [e.a[0] for e in p.effects("close")] == [c], "another record is closed", p)
    for root in ("update_sol_price", "update_chain_prices", "update_chain_params", "register_chain", "register_ntt", "deregister_ntt"):
        roles_accepted(rep, root)
    for root in ("set_assistant", "set_fee_recipient"):
        roles_accepted(rep, root, False)
    rep.floor("instance-field", 8)
    rep.floor("chain-field", 4)
