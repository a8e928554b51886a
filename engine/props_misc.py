"""Cross-cutting: C23 genuine records, C24 signing addresses, C30 lookup table, C31 broadcasts,
C34 record space, C35 exact arithmetic."""
from lib import *
import props_fns
import props_wire
from props_out import posts, marks


def terms_of(p):
    for f in p.p.facts:
        yield f, None
    for e in p.eff:
        for x in list(e.a) + list(e.kw.values()):
            if isinstance(x, tm.T):
                yield x, e


# ------------------------------------------------------------------ C31
def c31(rep):
    for crate in (MGR, TRX):
        for root in ("broadcast_wormhole_id", "broadcast_wormhole_peer"):
            for p in paths(rep, crate, root):
                w = p.where
                ps = posts(p)
                rep.need("broadcast-once", w, len(ps) == 1 and not ps[0][0].loop, f"{len(ps)} messages posted")
                e, ins, metas = ps[0]
                got = F(ins, "payload")
                if root == "broadcast_wormhole_id":
                    c = p.one("Config")
                    cfg = p.pre(c, "Config")
                    m = p.one("Mint")
                    rep.ob("broadcast-mint", w, p.same(key(m), F(cfg, "mint")), "the mint is not the configured one", p, e)
                    for q, md in by_mode(p, F(cfg, "mode")):
                        ok = any(q.same(got, cat(X(bytes.fromhex("9c23bd3b")), src, X(bytes([md])), F(cfg, "mint"), be(F(p.pre(m, "Mint"), "decimals"), 1)))
                                 for src in (owner(c), summ.ident(MGR)))
                        rep.ob("broadcast-id-payload", w, ok, f"announces {got}", q, e)
                else:
                    t = p.one("TransceiverPeer")
                    a = p.arg(0)
                    ch = F(a, "chain_id")
                    rep.ob("broadcast-peer-record", w, p.is_pda(t, [X(b"transceiver_peer"), be(ch, 2)]), "the peer record is not the one of the requested chain", p, e)
                    want = cat(X(bytes.fromhex("18fc67c2")), be(ch, 2), F(p.pre(t, "TransceiverPeer"), "address"))
                    rep.ob("broadcast-peer-payload", w, p.same(got, want), f"announces {got}", p, e)
                for x in p.persists():
                    rep.ob("broadcast-changes-nothing", w, p.same(x.a[2], mk("data", x.a[0], x.a[1])), "a record changes", p, x)
                rep.ob("broadcast-changes-nothing", w, not [x for x in p.eff if x.kind in TOKEN_OPS + ("close", "set_upgrade_authority", "sys_create")], "further effects", p)


def by_mode(p, m):
    for n, c in (("Locking", 0), ("Burning", 1)):
        d = p.decide(var(m, "mode::Mode", n))
        if d is False:
            continue
        q = p if d else p.refine(var(m, "mode::Mode", n))
        if q is not None:
            yield q, c


# ------------------------------------------------------------------ C30
def c30(rep):
    n = 0
    for p in all_paths(rep, MGR):
        w = p.where
        ext, cre = [], []
        for e in p.effects("invoke"):
            for y in tm.subterms(e.kw["ix"]):
                if y.op == "call" and str(y.a[0]).endswith("extend_lookup_table"):
                    ext.append((e, y))
                if y.op == "call" and str(y.a[0]).endswith("create_lookup_table"):
                    cre.append((e, y))
        lut = p.persists("LUT")
        if p.root != "initialize_lut":
            rep.ob("lut-writer", w, not ext and not cre and not [e for e in lut if not p.same(e.a[2], mk("data", e.a[0], e.a[1]))],
                   "another instruction touches the lookup table", p)
            continue
        n += 1
        rep.need("lut-calls", w, len(ext) == 1 and len(cre) == 1 and len(lut) == 1, f"{len(cre)} creations, {len(ext)} extensions, {len(lut)} records")
        auth = p.pda([X(b"lut_authority")])
        (ee, x), (ec, c) = ext[0], cre[0]
        rep.ob("lut-create-first", w, p.eff.index(ec) < p.eff.index(ee), "the table is extended before it is created", p, ee)
        slot = p.arg(0)
        rep.ob("lut-created-for-authority", w, p.same(c.a[1], auth) and p.same(c.a[3], slot), "table created for another authority or slot", p, ec)
        rep.ob("lut-extends-created", w, p.same(x.a[1], mk("fld", c, "1")) or p.same(x.a[1], F2(c)), f"extends {x.a[1]}", p, ee)
        rep.ob("lut-extends-as-authority", w, p.same(x.a[2], auth), "extended by another authority", p, ee)
        sd = ee.kw["seeds"]
        rep.ob("lut-authority-signs", w, sd.op == "agg" and len(tm.fields(sd)) == 1 and p.same(models.mk_pda1(tm.fields(sd)[0], p.id), auth), f"seeds {sd}", p, ee)
        a = lut[0].a[0]
        rep.ob("lut-record-address", w, p.is_pda(a, [X(b"lut")]), "the record is not at its fixed address", p, lut[0])
        rep.ob("lut-record-points", w, p.same(F(lut[0].a[2], "address"), x.a[1]), f"record points at {F(lut[0].a[2], 'address')}", p, lut[0])
        es = models.elems(x.a[4])
        rep.need("lut-entries", w, es is not None, f"entries {x.a[4]}")
        cfg = p.one("Config")
        cd = p.pre(cfg, "Config")
        want = {"the program": p.id, "the configuration": key(cfg), "custody": F(cd, "custody"), "the token program": F(cd, "token_program"), "the mint": F(cd, "mint"),
                "the token authority": p.pda([X(b"token_authority")]), "the outbound limiter": key(p.one("OutboxRateLimit"))}
        for g in p.p.facts:
            if g.op == "program" and p.p.facts[g] and tmatch(g.a[1], "Wormhole"):
                want["the core bridge"] = key(g.a[0])
        for k in p.accts("BridgeData"):
            want["the core bridge state"] = key(k)
        rep.ob("lut-entry-count", w, len(want) == 9 and len(es) <= 20, f"{len(es)} entries", p, ee)
        for k, v in want.items():
            rep.ob("lut-has-entry", w, any(p.same(v, y) for y in es), f"{k} is not in the table", p, ee)
        # nothing but verified accounts, and the two the core bridge verifies itself
        loose = [y for y in es if not any(p.same(v, y) for v in want.values()) and not known(p, y)]
        rep.ob("lut-no-foreign-entry", w, len(loose) <= 2, f"unverified entries {', '.join(map(str, loose))}", p, ee)
        rep.ob("lut-no-other-effects", w, not [z for z in p.eff if z.kind in TOKEN_OPS + ("close", "set_upgrade_authority", "sys_transfer")], "further effects", p)
    rep.floor("lut-has-entry", 9)


def F2(c):
    return tm.fld(c, "1")


def known(p, k):
    """the address of an account whose identity was checked"""
    for f, v in p.p.facts.items():
        if v and f.op in ("program", "acct", "sysvar") and p.same(key(f.a[0]), k):
            return True
    return any(p.same(k, y) for y in consts(p))


def consts(p):
    for f, v in p.p.facts.items():
        if v and f.op == "eq":
            for a in f.a:
                if isinstance(a, tm.T) and a.op in ("bytes", "pda"):
                    yield a


# ------------------------------------------------------------------ C23
def owner_known(p, acc):
    """the account's owner was compared with a program this program trusts: itself, a constant, a
    verified program, one named by a genuine record, or one for which a genuine record exists"""
    o = owner(acc)
    if p.created(acc) or p.same(o, p.id) or p.p.nf(o).op == "bytes":
        return True
    for f, v in p.p.facts.items():
        if not v:
            continue
        if f.op == "program" and p.same(o, key(f.a[0])):
            return True
        if f.op != "eq":
            continue
        for a, b in (f.a[:2], f.a[1::-1]):
            if a is o and any(y.op == "data" and genuine(p, y) for y in tm.subterms(b)):
                return True
            if a.op in ("pda", "pdab") and o in tm.subterms(a) and any(p.same(b, key(g.a[0])) for g, w in p.p.facts.items() if w and g.op == "acct"):
                return True
    return False


def genuine(p, y):
    acc, t = y.a[0], y.a[1]
    return p.created(acc) or any(v and f.op == "acct" and f.a[0] is acc and f.a[1] == t for f, v in p.p.facts.items()) \
        or any(e.kind == "ata_create" and e.a and e.a[0] is acc for e in p.eff)


def c23(rep):
    n = 0
    for p in all_paths(rep, MGR, TRX, QTR, GOV):
        seen = set()
        for t, e in terms_of(p):
            tm.subterms(t, seen)
        raws = set()
        for y in seen:
            if y.op == "data":
                n += 1
                rep.ob("record-type-and-owner-checked", p.where, genuine(p, y), f"{short(y.a[1])} read from account {y.a[0]} without checking owner and type", p)
            elif y.op == "data_unchecked":
                rep.ob("record-type-and-owner-checked", p.where, owner_known(p, y.a[0]), f"{short(y.a[1])} read from account {y.a[0]} without an owner check", p)
            elif y.op == "rawdata":
                raws.add(y)
        for y in raws:
            if y.a[0] in p.ty and not any(t.op == "slice" and t.a[0] is y for t in seen):
                continue
            if not any(t.op in ("slice", "borsh_de") and y in t.a for t in seen):
                continue
            n += 1
            acc = y.a[0]
            rep.ob("raw-record-owner-checked", p.where, owner_known(p, acc), f"bytes of account {acc} are interpreted without checking its owner", p)
            d = mk("slice", y, I(0), I(8))
            z = p.p.nf(d)
            rep.ob("raw-record-type-checked", p.where, z.op == "bytes" and len(z.a[0]) == 8, f"bytes of account {acc} are interpreted without checking its type", p)
    props_fns.message_tag(rep)
    rep.floor("record-type-and-owner-checked", 100)


def short(t):
    return str(t).split("<")[0].rsplit("::", 1)[-1]


# ------------------------------------------------------------------ C35
LOSSY = ("trunc", "wrap")


def c35(rep):
    n = 0
    for p in all_paths(rep, MGR, TRX, QTR, GOV):
        seen = set()
        for t, e in terms_of(p):
            tm.subterms(t, seen)
        bad = sorted(str(y)[:160] for y in seen if y.op in LOSSY)
        n += 1
        rep.ob("no-silent-loss", p.where, not bad, f"a decision or a stored, moved or sent value depends on arithmetic that may wrap or drop digits: {bad[:1]}", p)
        for f, v in p.p.facts.items():
            if f.op == "saturated":
                # cut off at the type's limit: harmless only where the cut-off value is not used, or is itself the limit that applies
                hi = f.a[1]
                used = any(hi in tm.subterms(x) for e in p.eff for x in list(e.a) + list(e.kw.values()) if isinstance(x, tm.T))
                ok = not used or any(y.op in ("fld", "data", "ixarg") and p.same(y, hi) for y in seen)
                rep.ob("no-silent-cutoff", p.where, ok, f"{f.a[0]} is silently cut off at {hi}", p)
    W = props_wire
    W.need_probe(W.MSG)
    W.need_probe(W.GPR)
    for crate, mod, v in [(W.MSG, m, W.x) for m in W.SPEC if W.has(W.MSG, m, "write")] + [(W.GPR, "gov_message", W.gmsg(k)) for k in (0, 2)]:
        for p, got, ip in W.encodings(rep, crate, mod, v):
            if got is None:
                continue
            seen = set()
            for t in list(p.p.facts) + [got]:
                tm.subterms(t, seen)
            bad = sorted(str(y)[:160] for y in seen if y.op in LOSSY)
            rep.ob("no-silent-loss-encoding", mod, not bad, f"the encoding depends on arithmetic that may wrap or drop digits: {bad[:1]}", p)
    rep.floor("no-silent-loss", 100)
    rep.floor("no-silent-loss-encoding", 12)
    # the programs are built with overflow checks: the dumped bodies carry the checks, the release build must keep them
    import re
    import extract
    f = extract.REPO + "/solana/Cargo.toml"
    prof = re.search(r"^\[profile\.release\]\s*$(.*?)(?=^\[|\Z)", open(f).read(), re.M | re.S)
    ok = bool(prof and re.search(r"^overflow-checks\s*=\s*true\s*(#.*)?$", prof.group(1), re.M))
    rep.ob("release-keeps-overflow-checks", "solana/Cargo.toml [profile.release]", ok, "release builds do not check for overflow")


# ------------------------------------------------------------------ C34
WIRE = {"ChainId": 2, "Mode": 1, "TrimmedAmount": 9, "EmptyPayload": 0, "NativeTokenTransfer": 79, "NttManagerMessage": 145}


def borsh_max(p, ty, seen=()):
    """the largest Borsh encoding of a value of the type; None: unbounded or unknown"""
    d = p.tk(ty)
    k = d["k"]
    if k == "int":
        return d["n"] // 8
    if k == "bool":
        return 1
    if k == "array":
        n = borsh_max(p, d["t"], seen)
        return None if n is None or not isinstance(d["n"], int) else n * d["n"]
    if k == "tuple":
        ns = [borsh_max(p, t, seen) for t in d.get("a") or d.get("t") or []]
        return None if None in ns else sum(ns)
    if k != "adt" or ty in seen:
        return None
    name = d["d"]
    if name == "solana_program::pubkey::Pubkey":
        return 32
    if name == "core::marker::PhantomData":
        return 0
    if name == models.OPTION:
        n = borsh_max(p, d["a"][0], seen)
        return None if n is None else 1 + n
    if name.startswith("ntt_messages::") and name.rsplit("::", 1)[-1] in WIRE:
        return WIRE[name.rsplit("::", 1)[-1]]       # their encodings are fixed by C20 and C21
    a = p.adts.get(name)
    if a is None:
        return None
    if a["kind"] == "enum":
        ns = [[borsh_max(p, t, seen + (ty,)) for _, t in v["f"]] for v in a["v"]]
        return None if any(None in x for x in ns) else 1 + max(map(sum, ns))
    fs = models.borsh_fields(p, ty)
    if fs is None:
        return None
    ns = [borsh_max(p, t, seen + (ty,)) for _, t in fs]
    return None if None in ns else sum(ns)


def c34(rep):
    done = set()
    for p in all_paths(rep, MGR, TRX, QTR, GOV):
        for e in p.effects("sys_create"):
            t = p.ty.get(e.a[0])
            ps = [x for x in p.persists() if x.a[0] is e.a[0]]
            if t is None:
                continue
            rep.ob("created-owned-by-program", p.where, p.same(e.a[2], p.id), f"{short(t)} record created for program {e.a[2]}", p, e)
            rep.ob("created-is-initialised", p.where, bool(ps), f"{short(t)} record created without being written", p, e)
            pr = p.p.ip.prog
            ids = [k for k in pr.types if pr.types[k]["k"] == "adt" and pr.ts(k) == t]
            n = borsh_max(pr, ids[0]) if ids else None
            if n is None:
                rep.ob("record-size-known", p.where, False, f"{short(t)} has no bounded encoding", p, e)
                continue
            done.add((p.crate, t))
            ok = 8 + n <= e.a[1].a[0] if e.a[1].op == "int" else p.holds(le(I(8 + n), e.a[1]))
            rep.ob("record-fits", p.where, ok, f"{short(t)} can take {8 + n} bytes, its account has {e.a[1]}", p, e)
    rep.floor("record-fits", 14)
    rep.ob("records-seen", "all programs", len(done) >= 14, f"{len(done)} record types")


# ------------------------------------------------------------------ C24
def template(p, seeds):
    """seed bytes as a list: constant bytes, or None for an unknown one; None when a length is unknown"""
    out = []
    for s in seeds.a if seeds.op == "cat" else (seeds,):
        if s.op == "bytes":
            out += list(s.a[0])
        else:
            n = s.a[2] if s.op == "tob" else None
            if n is None:
                l = p.p.ip.length(s)
                n = l.a[0] if l.op == "int" else None
            if n is None and (s.op == "fld" and s.a[1] in ("key", "owner") or "key" in str(s.op)):
                n = 32
            if n is None and s.op in ("fld", "keccak", "pda"):
                n = 32
            if n is None:
                return out, False
            out += [None] * n
    return out, True


def may_collide(a, b):
    (x, fx), (y, fy) = a, b
    if fx and fy and len(x) != len(y):
        return False
    return not any(u is not None and v is not None and u != v for u, v in zip(x, y))


def purposes(p):
    """[(purpose, address term, effect)]: what each signature of the program is used for"""
    pst = {id(e): e for e, _, _ in posts(p)}
    mk_ = {id(e): e for e, _, _ in marks(p)}
    for e in p.eff:
        sd = e.kw.get("seeds")
        if sd is None or sd.op != "agg":
            continue
        for s in tm.fields(sd):
            a = models.mk_pda1(s, p.id)
            if e.kind in TOKEN_OPS:
                cust = [F(p.pre(c, "Config"), "custody") for c in p.accts("Config")]
                src = e.kw.get("src")
                what = "custody" if e.kind in ("mint_to", "burn") or src is not None and any(p.same(key(src), c) for c in cust) else "users' tokens"
            elif id(e) in pst:
                what = None         # told apart by the account list
                for _, _, mm in posts(p):
                    for i, m in enumerate(tm.fields(mm)):
                        if p.same(F(m, "pubkey"), a):
                            what = {1: "message account", 2: "message emitter"}.get(i, "message posting")
            elif id(e) in mk_:
                what = "release request"
            elif e.kind == "set_upgrade_authority":
                what = "upgrade authority"
            elif e.kind == "invoke" and any(y.op == "call" and "lookup_table" in str(y.a[0]) for y in tm.subterms(e.kw["ix"])):
                what = "lookup table"
            elif e.kind == "invoke" and p.crate == GOV:
                what = "governance"
            else:
                what = None
            yield what, a, e


def c24(rep):
    byp = {}
    for p in all_paths(rep, MGR, TRX, QTR, GOV):
        for what, a, e in purposes(p):
            rep.ob("signature-has-purpose", p.where, what is not None, f"the program signs {e.kind} with {a}, which is not one of its purposes", p, e)
            q = a if a.op in ("pda", "pdab") else None
            rep.ob("signs-as-own-address", p.where, q is not None and p.same(q.a[1], p.id), f"signs with {a}", p, e)
            if what and q is not None:
                byp.setdefault((p.crate, what), {}).setdefault(str(template(p, q.a[0])), (template(p, q.a[0]), p, e))
        for f, v in p.p.facts.items():
            if v and f.op == "eq":
                for x, y in (f.a[:2], f.a[1::-1]):
                    if x.op in ("pda", "pdab") and p.same(x.a[1], p.id) and y.op == "fld" and y.a[1] == "key":
                        t = p.ty.get(y.a[0])
                        if t:
                            byp.setdefault((p.crate, short(t) + " record"), {}).setdefault(str(template(p, x.a[0])), (template(p, x.a[0]), p, None))
        for e in p.eff:
            pg = e.kw.get("program", e.kw.get("program_id"))
            if e.kind == "invoke":
                pg = F(e.kw["ix"], "program_id") if e.kw["ix"].op == "agg" else None
            if pg is None or p.crate == GOV:
                continue
            k = key(pg) if pg.op == "acc" else pg
            ok = p.p.nf(k).op == "bytes" or any(v and f.op == "program" and p.same(key(f.a[0]), k) for f, v in p.p.facts.items()) \
                or any(p.same(k, F(p.pre(c, "Config"), "token_program")) for c in p.accts("Config"))
            rep.ob("called-program-verified", p.where, ok, f"{e.kind} calls program {k}, whose identity is not checked", p, e)
    ks = sorted(byp)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            if a[0] != b[0]:
                continue
            for (ta, pa, ea) in byp[a].values():
                for (tb, pb, eb) in byp[b].values():
                    rep.ob("addresses-apart", pa.where, not may_collide(ta, tb), f"{a[1]} and {b[1]} can have the same address", pa, ea or eb)
    rep.floor("addresses-apart", 20)
    rep.floor("signature-has-purpose", 20)
