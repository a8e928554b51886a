"""Wire formats: C20 (encodings follow the format and decode back), C21 (declared sizes).

The encoders and decoders are generic over the reader and writer, so their bodies are
taken from crates in /verif/probes that only instantiate them (type-checked, never run)."""
import os
import absint
from lib import *

MSG, GPR = "ntt_probe_messages", "ntt_probe_governance"
x = mk("sym", "value")
inp = mk("sym", "input")
tail = mk("sym", "tail")


def H(s):
    return X(bytes.fromhex(s))


def u16len(ip, t):
    n = ip.length(t)
    return be(n, 2)


# --------------------------------------------------------------- the specified formats
def f_amount(ip, v):
    return cat(be(F(v, "decimals"), 1), be(F(v, "amount"), 8))


def size_x(ip, extra, body):
    """bytes of the additional payload: none declared, 20, none undeclared, any number, 20 after a type byte"""
    return {"": None, "x": I(20), "n": I(0), "v": ip.length(body), "t": I(21)}[extra]


def f_transfer(ip, v, extra=""):
    t = cat(H("994e5454"), f_amount(ip, F(v, "amount")), F(v, "source_token"), F(v, "to"), be(F(v, "to_chain", "id"), 2))
    b = F(v, "additional_payload", "body")
    n = size_x(ip, extra, b)
    return t if n is None else cat(t, be(n, 2), *{"n": [], "t": [H("07"), b]}.get(extra, [b]))


def f_manager(ip, v, extra=""):
    n = size_x(ip, extra, F(v, "payload", "additional_payload", "body"))
    return cat(F(v, "id"), F(v, "sender"), be(I(79) if n is None else tm.add(I(81), n), 2), f_transfer(ip, F(v, "payload"), extra))


def f_message(ip, v, extra=""):
    m = F(v, "message_data")
    tp = F(v, "transceiver_payload")
    n = size_x(ip, extra, F(m, "ntt_manager_payload", "payload", "additional_payload", "body"))
    return cat(H("9945ff10"), F(m, "source_ntt_manager"), F(m, "recipient_ntt_manager"), be(I(145) if n is None else tm.add(I(147), n), 2),
               f_manager(ip, F(m, "ntt_manager_payload"), extra), u16len(ip, tp), tp)


def one_of(p, v, enum, codes):
    for n, c in codes.items():
        if p.decide(var(v, enum, n)) is True:
            return X(bytes([c]))
    return mk("undetermined")


MODES = {"Locking": 0, "Burning": 1}
ACTIONS = {"Undefined": 0, "EvmCall": 1, "SolanaCall": 2}


def f_info(ip, v, p):
    return cat(H("9c23bd3b"), F(v, "manager_address"), one_of(p, F(v, "manager_mode"), "mode::Mode", MODES), F(v, "token_address"), be(F(v, "token_decimals"), 1))


def f_registration(ip, v):
    return cat(H("18fc67c2"), be(F(v, "chain_id", "id"), 2), F(v, "transceiver_address"))


def flag(p, v):
    d = p.decide(v)
    return I(int(d)) if d is not None else mk("b2i", v)


def f_gov(ip, v, p, n):
    out = [MODULE, H("020001"), F(v, "governance_program_id"), F(v, "program_id"), be(I(n), 2)]
    for i in range(n):
        a = tm.fields(F(v, "accounts"))[i]
        out += [F(a, "pubkey"), u8arr(flag(p, F(a, "is_signer"))), u8arr(flag(p, F(a, "is_writable")))]
    return cat(*out, u16len(ip, F(v, "data")), F(v, "data"))


MODULE = X(b"GeneralPurposeGovernance".rjust(32, b"\0"))
P4 = {"transfer": [(0, "994e5454")], "manager_message": [(66, "994e5454")], "message": [(0, "9945ff10"), (136, "994e5454")],
      "info": [(0, "9c23bd3b")], "registration": [(0, "18fc67c2")], "gov_message": [(0, MODULE.a[0].hex()), (32, "02"), (33, "0001")]}

# module -> (format of a value on a path, base name for the constants a decoder must insist on)
SPEC = {
    "chain_id": (lambda ip, v, p: be(F(v, "id"), 2), None),
    "mode": (lambda ip, v, p: one_of(p, v, "mode::Mode", MODES), None),
    "trimmed_amount": (lambda ip, v, p: f_amount(ip, v), None),
    "empty_payload": (lambda ip, v, p: X(b""), None),
    "info": (f_info, "info"),
    "registration": (lambda ip, v, p: f_registration(ip, v), "registration"),
    "action": (lambda ip, v, p: one_of(p, v, "governance::GovernanceAction", ACTIONS), None),
}
SPEC["manager_message_typed"] = (lambda ip, v, p: cat(F(v, "id"), F(v, "sender"), H("001507"), F(v, "payload", "body")), None)
for _x in ("", "x", "n", "v", "t"):
    for _b, _f in (("transfer", f_transfer), ("manager_message", f_manager), ("message", f_message)):
        SPEC[_b + ("_" + _x if _x else "")] = ((lambda f, e: lambda ip, v, p: f(ip, v, e))(_f, _x), _b)
for _k in list(SPEC):
    SPEC[_k + "_payload"] = SPEC[_k + "_anchor"] = SPEC[_k]


def fresh(crate):
    return absint.Interp(summ.prog(crate), models.M)


def need_probe(crate):
    if os.path.exists(f"{summ.DUMP}/{crate}.err"):
        raise Broken("instantiation", crate, "the public encoders and decoders cannot be instantiated any more: " + open(f"{summ.DUMP}/{crate}.err").read()[-600:])


def run(rep, ip, crate, mod, fn, args, st):
    k = f"{crate}::{mod}::{fn}"
    ps = ip.run(k, args, st)
    rep.analysed[f"{mod}::{fn}"] = rep.analysed.get(f"{mod}::{fn}", 0) + len(ps)
    rep.fns |= ip.visited
    rep.widened += ip.nwiden
    rep.steps += ip.steps
    rep.forks += ip.nforks
    rep.calls += ip.ncalls
    ip.steps = ip.nforks = ip.ncalls = 0
    return [P(summ.Path(ip, k, v, s, i), crate, k) for i, (v, s) in enumerate(ps)]


def has(crate, mod, fn):
    return f"{crate}::{mod}::{fn}" in summ.prog(crate).raw


def encodings(rep, crate, mod, v):
    """[(path, bytes written, interpreter)] over all paths of the encoder of `v`"""
    ip = fresh(crate)
    st = absint.State()
    w, c = ip.alloc(st, X(b"")), ip.alloc(st, v)
    vec = summ.prog(crate).raw[f"{crate}::{mod}::write"]["argc"] == 1
    out = []
    for p in run(rep, ip, crate, mod, "write", [c] if vec else [c, w], st):
        if vec:
            out.append((p, p.p.ret, ip))
        else:
            out.append((p, None if summ.is_err(p.p.ret) else ip.deref(p.p.st, w), ip))
    return out


def by_variant(paths, mod, v):
    """paths that do not distinguish the variants of an enumeration, once per variant"""
    base = mod.split("_")[0]
    e = {"mode": (v, "mode::Mode", MODES), "action": (v, "governance::GovernanceAction", ACTIONS)}.get(base)
    if base == "info":
        e = (F(v, "manager_mode"), "mode::Mode", MODES)
    for p, got, ip in paths:
        if e is None or any(p.decide(var(e[0], e[1], n)) is True for n in e[2]):
            yield p, got, ip
            continue
        for n in e[2]:
            q = p.refine(var(e[0], e[1], n))
            if q is not None:
                yield q, got, ip


def empty(p, t):
    return p.decide(eq(p.p.ip.length(t), I(0), True)) is True


def nonempty(p, t):
    """the byte string without the parts that are known to be empty"""
    return cat(*[x for x in t.a if not empty(p, x)]) if t.op == "cat" else t


def where(mod):
    return f"{mod}"


def check(rep, crate, mod, v, spec, may_fail=False):
    w = where(mod)
    good = 0
    for p, got, ip in by_variant(encodings(rep, crate, mod, v), mod, v):
        if got is None:
            rep.ob("encode-total", w, may_fail, "encoding can fail", p)
            continue
        good += 1
        want = spec(ip, v, p)
        rep.ob("encode-format", w, p.same(got, want), f"writes {got}, the format is {want}", p)
        # decode what was written, with anything behind it (a payload that reads to the end takes it all)
        st = p.p.st.copy()
        rest = X(b"") if mod.endswith("_v") else tail
        r = ip.alloc(st, cat(got, rest))
        n = 0
        for q in run(rep, ip, crate, mod, "read", [r], st):
            if summ.is_err(q.p.ret):
                rep.ob("decode-accepts", w, False, "decoding what the encoder wrote can fail", q)
                continue
            n += 1
            back = payload(q.p.ret, "Ok")
            rep.ob("decode-inverts", w, same_value(q, back, v), f"decodes to {back}", q)
            left = nonempty(q, ip.deref(q.p.st, r))
            rep.ob("decode-consumes", w, q.same(left, rest) or left.op != "cat" and empty(q, left) and empty(q, rest), f"leaves {left} unread", q)
        rep.ob("decode-accepts", w, n > 0, "decoding what the encoder wrote always fails", p)
    rep.need("encode-total", w, good > 0, "no value can be encoded")


def same_value(p, a, b):
    """equal values; structures and lists field by field"""
    if p.same(a, b):
        return True
    if a.op == "bool" or a is tm.TRUE or a is tm.FALSE:
        return p.decide(b) is (a is tm.TRUE)
    if a.op != "agg":
        return a.op in ("fill", "bytes", "slice", "cat") and empty(p, a) and empty(p, b)
    if a.a[0] == "array":
        return b.op == "agg" and len(a.a) == len(b.a) and all(same_value(p, x, y) for x, y in zip(tm.fields(a), tm.fields(b)))
    if a.a[0] in tm._ADTS:
        return p.decide(isv(b, a.a[0], a.a[1])) is True
    ix = tm._FIELDIDX.get((a.a[0], a.a[1]))
    if ix is None:
        return False
    return all(unit(a.a[2 + i]) or same_value(p, a.a[2 + i], F(b, n)) for n, i in ix.items())


def unit(t):
    return t.op == "agg" and "PhantomData" in t.a[0] or t.op == "agg" and len(t.a) == 2


def insists(p, lo, const):
    """the input is known to carry these bytes at this place"""
    n = len(const)
    s = mk("slice", inp, I(lo), I(lo + n))
    if p.same(s, X(const)) or n <= 8 and p.same(mk("from", s, "be", n), I(int.from_bytes(const, "big"))):
        return True
    return all(p.same(mk("idx", mk("slice", inp, I(lo + i), I(lo + i + 1)), I(0)), I(const[i])) or p.same(mk("idx", s, I(i)), I(const[i]))
               or p.same(mk("idx", inp, I(lo + i)), I(const[i])) for i in range(n))


def strict(rep, crate, mod, base):
    """every accepted input carries the format's constants"""
    w = where(mod)
    ip = fresh(crate)
    st = absint.State()
    r = ip.alloc(st, inp)
    for p in run(rep, ip, crate, mod, "read", [r], st):
        if summ.is_err(p.p.ret):
            continue
        for lo, c in P4[base]:
            rep.ob("decode-insists", w, insists(p, lo, bytes.fromhex(c)), f"accepts input without {c} at offset {lo}", p)


def canonical(rep, crate, mod, codes):
    """an accepted tag byte is one of the defined ones, and denotes that variant"""
    ip = fresh(crate)
    for b in range(256):
        st = absint.State()
        r = ip.alloc(st, X(bytes([b])))
        for p in run(rep, ip, crate, mod, "read", [r], st):
            okay = not summ.is_err(p.p.ret)
            v = payload(p.p.ret, "Ok") if okay else None
            want = [n for n, c in codes.items() if c == b]
            rep.ob("decode-tag", where(mod), (okay and bool(want) and v.a[1] == want[0]) or (not okay and not want), f"byte {b} decodes to {v}", p)


def gmsg(n, data=None):
    t = adt_struct("governance::GovernanceMessage")
    ix = tm._FIELDIDX[(t, "GovernanceMessage")]
    acc = adt_struct("governance::Acc")
    def field(f, i):
        # long lists: every account a known one, so that no flag has to be decided
        if n < LONG or f not in ("pubkey", "is_signer", "is_writable"):
            return mk("sym", f"{f}{i}")
        return X(i.to_bytes(2, "big") * 16) if f == "pubkey" else tm.TRUE if (i >> (f == "is_signer")) & 1 else tm.FALSE
    vals = {"accounts": agg("array", "", *[agg(acc, "Acc", *[field(f, i) for f in tm._FIELDIDX[(acc, "Acc")]]) for i in range(n)]) if n else X(b""),
            "data": mk("sym", "data") if data is None else data, "program_id": mk("sym", "program_id"), "governance_program_id": mk("sym", "governance_program_id")}
    out = [None] * len(ix)
    for f, i in ix.items():
        if f not in vals:
            raise Broken("gov-format", "GovernanceMessage", f"unknown field {f}")
        out[i] = vals[f]
    return agg(t, "GovernanceMessage", *out)


def with_lens(ip, n):
    for s in ["program_id", "governance_program_id"] + [f"pubkey{i}" for i in range(n)]:
        ip.lens[mk("sym", s)] = 32


LONG = 280      # more than a byte counts
GOVN = (0, 1, 2, 3, LONG)


def known(n, name):
    """n bytes: any bytes at all when few, else known ones"""
    return X(b"") if n == 0 else agg("array", "", *[mk("sym", f"{name}{i}") for i in range(n)]) if n < 8 else X(bytes(i * 7 % 251 for i in range(n)))


def with_payload(n):
    """the message with a transceiver payload of n bytes"""
    t = adt_struct("transceiver::TransceiverMessage")
    ix = tm._FIELDIDX[(t, "TransceiverMessage")]
    out = [None] * len(ix)
    for f, i in ix.items():
        out[i] = known(n, "payload") if f == "transceiver_payload" else F(x, f)
    return agg(t, "TransceiverMessage", *out)


SIZES = (0, 1, 2, LONG)


def attempt(rep, fn, values):
    """fn for a value whose byte strings have any length; where a loop over them was widened
    and the rules were not decided, for byte strings of each of a few lengths instead"""
    v0, others = values
    sub = Report(rep.pid)
    try:
        fn(sub, v0)
    except (Broken, absint.TooMany):
        if not others or not sub.widened:
            raise
        sub.viol.setdefault("undecided", [])
    if others and sub.viol and sub.widened:
        sub = Report(rep.pid)
        for v in others():
            fn(sub, v)
    rep.merge(sub)


def values_of(mod):
    return x, ((lambda: [with_payload(n) for n in SIZES]) if mod == "message" or mod.startswith("message_") else None)


def gvalues(n):
    return gmsg(n), lambda: [gmsg(n, known(k, "data")) for k in SIZES]


def c20(rep):
    need_probe(MSG)
    for mod in SPEC:
        if has(MSG, mod, "write"):
            attempt(rep, lambda r, v: check(r, MSG, mod, v, SPEC[mod][0]), values_of(mod))
            if SPEC[mod][1]:
                strict(rep, MSG, mod, SPEC[mod][1])
    canonical(rep, MSG, "mode", MODES)
    need_probe(GPR)
    check(rep, GPR, "action", x, SPEC["action"][0])
    canonical(rep, GPR, "action", ACTIONS)
    for mod in ("gov_message", "gov_message_anchor"):
        for n in GOVN:
            gov_one(rep, mod, n)
        strict(rep, GPR, mod, "gov_message")
    rep.floor("encode-format", 22)
    rep.floor("decode-inverts", 22)
    rep.floor("decode-insists", 15)


def gov_one(rep, mod, n):
    global fresh
    old = fresh

    def f2(crate):
        ip = old(crate)
        with_lens(ip, n)
        return ip
    fresh = f2
    try:
        attempt(rep, lambda r, v: check(r, GPR, mod, v, lambda ip, v, p: f_gov(ip, v, p, n), may_fail=True), gvalues(n))
    finally:
        fresh = old


def c21(rep):
    """written_size / SIZE agree with the bytes written"""
    need_probe(MSG)
    need_probe(GPR)

    def one(crate, mod, vs, n=None):
        attempt(rep, lambda r, v: size(r, crate, mod, v, n), vs)

    def size(rep, crate, mod, v, n):
        w = where(mod)
        for p, got, ip in encodings(rep, crate, mod, v):
            if got is None:
                continue
            if n is not None:
                with_lens(ip, n)
            st = p.p.st.copy()
            c = ip.alloc(st, v)
            L = ip.length(got)
            for q in run(rep, ip, crate, mod, "size", [c], st):
                rep.ob("size-exact", w, q.same(q.p.ret, L), f"declares {q.p.ret} bytes, writes {L}", q)
            for q in run(rep, ip, crate, mod, "fixed", [], p.p.st.copy()):
                s = q.p.ret
                if s.op == "agg" and s.a[1] == "Some":
                    rep.ob("fixed-size-exact", w, q.same(payload(s, "Some"), L), f"fixed size {payload(s, 'Some')}, writes {L}", q)
                else:
                    rep.ob("fixed-size-known", w, s.op == "agg" and s.a[1] == "None", f"fixed size {s} unknown", q)
    for mod in SPEC:
        if has(MSG, mod, "size"):
            one(MSG, mod, values_of(mod))
    one(GPR, "action", (x, None))
    for n in GOVN:
        one(GPR, "gov_message", gvalues(n), n)
    rep.floor("size-exact", 16)
