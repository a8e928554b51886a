"""Semantics of the external functions the programs call (anchor, solana, spl,
std).  Each model is a transfer function of the abstract domain; anything not
listed is an unknown function of its arguments (absint.Interp.opaque)."""
import re

import mir
import terms as tm
from terms import (T, I, B, X, S, mk, agg, fld, TRUE, FALSE, UNIT, NONE, some, ok, err, eq, lt, le,
                   b_not, b_and, tup, cat)

ACCOUNT = "anchor_lang::accounts::account::Account"
IFACE = "anchor_lang::accounts::interface_account::InterfaceAccount"
SIGNER = "anchor_lang::accounts::signer::Signer"
PROGRAM = "anchor_lang::accounts::program::Program"
INTERFACE = "anchor_lang::accounts::interface::Interface"
UNCHECKED = "anchor_lang::accounts::unchecked_account::UncheckedAccount"
SYSACC = "anchor_lang::accounts::system_account::SystemAccount"
SYSVAR = "anchor_lang::accounts::sysvar::Sysvar"
INFO = "solana_program::account_info::AccountInfo"
BOX = "alloc::boxed::Box"
OPTION, RESULT = "core::option::Option", "core::result::Result"
ORDERING = "core::cmp::Ordering"
EMPTY = X(b"")


class Models:
    def __init__(self):
        self.rules = []

    def on(self, *pats):
        def deco(f):
            for p in pats:
                self.rules.append((re.compile(p), f))
            return f
        return deco

    def find(self, name, d):
        base = strip_generics(name)
        for rx, f in self.rules:
            if rx.fullmatch(base):
                return f
        dd = strip_generics(d)
        if dd != base:
            for rx, f in self.rules:
                if rx.fullmatch(dd):
                    return f
        return None


def strip_generics(n):
    """drops the trailing ::<..> instantiation"""
    if n.endswith(">"):
        depth = 0
        for i in range(len(n) - 1, -1, -1):
            if n[i] == ">" and n[i - 1] not in "-=":
                depth += 1
            elif n[i] == "<":
                depth -= 1
                if depth == 0:
                    if n[:i].endswith("::"):
                        return n[:i - 2]
                    return n
    return n


M = Models()
on = M.on


# ------------------------------------------------------------------ accounts
def info_of(ip, st, v):
    """the AccountInfo inside an anchor wrapper"""
    for _ in range(8):
        if v.op == "ref":
            v = ip.deref(st, v)
        elif v.op == "agg" and v.a[0] in (ACCOUNT,):
            return v.a[3]
        elif v.op == "agg" and v.a[0] == IFACE:
            v = v.a[2]
        elif v.op == "agg" and v.a[0] in (SIGNER, PROGRAM, UNCHECKED, SYSACC, SYSVAR, INTERFACE):
            v = v.a[2]
        else:
            return v
    return v


def mkacct(ip, st, ty, acc):
    """the value of anchor type `ty` built over account `acc`, with the facts its
    constructor establishes"""
    p = ip.prog
    d = p.tk(ty)
    n = d.get("d")
    a = d.get("a") or []
    if n == BOX:
        v = mkacct(ip, st, a[0], acc)
        return None if v is None else ip.alloc(st, v)
    if n == ACCOUNT:
        t = p.ts(a[-1])
        st.facts[mk("acct", acc, t)] = True
        return agg(ACCOUNT, "Account", mk("data", acc, t), acc)
    if n == IFACE:
        t = p.ts(a[-1])
        st.facts[mk("acct", acc, t)] = True
        return agg(IFACE, "InterfaceAccount", agg(ACCOUNT, "Account", mk("data", acc, t), acc), fld(acc, "owner"))
    if n == SIGNER:
        if not ip.assume(st, fld(acc, "is_signer")):
            return None
        return agg(SIGNER, "Signer", acc)
    if n == PROGRAM:
        t = p.ts(a[-1]) if a else "?"
        st.facts[mk("program", acc, t)] = True
        return agg(PROGRAM, "Program", acc, tm.sym("phantom"))
    if n == INTERFACE:
        t = p.ts(a[-1]) if a else "?"
        st.facts[mk("program", acc, t)] = True
        return agg(INTERFACE, "Interface", agg(PROGRAM, "Program", acc, tm.sym("phantom")))
    if n == UNCHECKED:
        return agg(UNCHECKED, "UncheckedAccount", acc)
    if n == SYSACC:
        st.facts[mk("acct", acc, "SystemAccount")] = True
        return agg(SYSACC, "SystemAccount", acc)
    if n == SYSVAR:
        t = p.ts(a[-1])
        st.facts[mk("acct", acc, t)] = True
        return agg(SYSVAR, "Sysvar", acc, mk("sysvar", t))
    if n == INFO:
        return acc
    return None


@on(r"<.* as anchor_lang::Accounts<.*>>::try_accounts", r"anchor_lang::Accounts::try_accounts")
def try_accounts(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    r = av[1]
    cur = ip.deref(st, r)
    if cur.op != "accs":
        return NotImplemented
    acc = mk("acc", cur.a[0])
    e = st.copy()
    d = ip.prog.tk(c.targs[0])
    if d.get("d") == OPTION:
        # absent when the caller passes the program's own id
        out = []
        ip.store_through(st, r, mk("accs", tm.add(cur.a[0], I(1))))
        for b, s in ip.fork(st, eq(fld(acc, "key"), ip.snap(st, av[0]))):
            if b:
                out.append((ok(NONE), s))
            else:
                v = mkacct(ip, s, d["a"][0], acc)
                if v is None:
                    return NotImplemented
                out.append((ok(some(v)), s))
        return out + [(err(tm.sym("anyerr")), e)]
    ip.store_through(st, r, mk("accs", tm.add(cur.a[0], I(1))))
    v = mkacct(ip, st, c.targs[0], acc)
    if v is None:
        return NotImplemented
    return [(ok(v), st), (err(tm.sym("anyerr")), e)]


@on(r"<anchor_lang::accounts::account::Account<T>>::try_from", r"<.*Account<T>>::try_from",
    r"<anchor_lang::accounts::interface_account::InterfaceAccount<T>>::try_from")
def acct_try_from(ip, st, av, c):
    e = st.copy()
    acc = info_of(ip, st, av[0])
    rt = ip.prog.tk(c.rty)
    v = mkacct(ip, st, rt["a"][0], acc)
    if v is None:
        return NotImplemented
    return [(ok(v), st), (err(tm.sym("anyerr")), e)]


@on(r"<anchor_lang::accounts::(account::Account|interface_account::InterfaceAccount)<T>>::try_from_unchecked")
def acct_try_from_unchecked(ip, st, av, c):
    acc = info_of(ip, st, av[0])
    rt = ip.prog.tk(c.rty)
    ty = rt["a"][0]
    d = ip.prog.tk(ty)
    t = ip.prog.ts(d["a"][-1])
    e = st.copy()
    if any(x.kind == "sys_create" and x.a[0] is acc for x in st.eff):
        v = mk("zeroed", t)
    elif any(x.kind == "ata_create" and x.a[0] is acc for x in st.eff):
        v = mk("data", acc, t, st.ver)
    else:
        v = mk("data_unchecked", acc, t)
    a = agg(ACCOUNT, "Account", v, acc)
    if d["d"] == IFACE:
        a = agg(IFACE, "InterfaceAccount", a, fld(acc, "owner"))
    return [(ok(a), st), (err(tm.sym("anyerr")), e)]


@on(r"<.*AccountInfo>::(lamports|data_len|try_data_len|data_is_empty|try_lamports)")
def acc_infra(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    v = mk("infra", n, ip.snap(st, info_of(ip, st, av[0])))
    if n.startswith("try_"):
        e = st.copy()
        return [(ok(v), st), (err(tm.sym("anyerr")), e)]
    return v


@on(r"<solana_program::rent::Rent>::(is_exempt|minimum_balance)")
def rent(ip, st, av, c):
    n = c.name.rsplit("::", 1)[-1].split(":")[0]
    if n == "minimum_balance":
        return mk("rentmin", ip.snap(st, av[1]))
    return mk("infra", n, *[ip.snap(st, a) for a in av[1:]])


@on(r"<.*AccountInfo>::try_borrow(_mut)?_(data|lamports)", r"<.*AccountInfo>::(data|lamports)_borrow.*")
def borrow_data(ip, st, av, c):
    acc = ip.snap(st, info_of(ip, st, av[0]))
    what = "rawdata" if "data" in c.name.rsplit("::", 1)[-1] else "rawlamports"
    e = st.copy()
    ver = st.ver + (sum(x.kind.startswith("sys_") for x in st.eff) if what == "rawlamports" else 0)
    return [(ok(mk(what, acc, ver) if ver else mk(what, acc)), st), (err(tm.sym("anyerr")), e)]


@on(r".* as anchor_lang::Key>::key", r"anchor_lang::Key::key")
def key(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    v = info_of(ip, st, av[0])
    if ip.prog.ts(c.targs[0]).endswith("::Pubkey"):
        return v
    return tm.proj(v, "key")


@on(r".*ToAccountInfo>::to_account_info", r"anchor_lang::ToAccountInfo::to_account_info",
    r"<.*(Account|InterfaceAccount|Signer|Program|Interface|UncheckedAccount|Sysvar|SystemAccount).* as core::convert::AsRef<.*AccountInfo.*>>::as_ref",
    r"<.*AccountInfo as .*AsRef<.*AccountInfo.*>>::as_ref")
def to_info(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    return info_of(ip, st, av[0])


@on(r"<.* as anchor_lang::ToAccountInfos>::to_account_infos", r"anchor_lang::ToAccountInfos::to_account_infos")
def to_infos(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    v = info_of(ip, st, av[0])
    if ip.prog.tk(c.targs[0]).get("d") == "alloc::vec::Vec":
        return v
    if v.op == "agg" and v.a[0] == CPI:
        a, rem, prog, _ = cpi_parts(ip, st, v)
        return cat(agg("array", INFO, *(tm.fields(a) if a.op == "agg" else (a,))), rem, agg("array", INFO, prog))
    return agg("array", INFO, v)


@on(r"<.* as anchor_lang::ToAccountMetas>::to_account_metas", r"anchor_lang::ToAccountMetas::to_account_metas")
def to_metas(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    v = info_of(ip, st, av[0])
    return agg("array", "meta", mk("call", "meta", v))


@on(r"<.*(Account|InterfaceAccount|Signer|Program|Interface|UncheckedAccount|Sysvar|SystemAccount)(<T>)? as core::ops::deref::Deref>::deref")
def acct_deref(ip, st, av, c):
    v = av[0]
    if v.op == "ref":
        v = ip.deref(st, v)
    if v.op == "agg" and v.a[0] == ACCOUNT:
        return v.a[2]
    if v.op == "agg" and v.a[0] == IFACE:
        return v.a[2].a[2] if v.a[2].op == "agg" else mk("fld", v.a[2], "account")
    if v.op == "agg" and v.a[0] == SYSVAR:
        return v.a[3]
    if v.op == "agg":
        return info_of(ip, st, v)
    if c.name.startswith("<" + ACCOUNT) or c.name.startswith("<" + IFACE):
        return mk("fld", v, "account")
    return v


@on(r"<.*(Account|InterfaceAccount)(<T>)? as core::ops::deref::DerefMut>::deref_mut")
def acct_deref_mut(ip, st, av, c):
    from mir import Elem
    r = av[0]
    if r.op != "ref":
        return NotImplemented
    v = ip.deref(st, r)
    if v.op == "ref":
        r, v = v, ip.deref(st, v)
    el = Elem("f", 0, "account", ACCOUNT, None, None, None)
    path = r.a[1] + (el,)
    if v.op == "agg" and v.a[0] == IFACE:
        path = path + (el,)
    return mk("ref", r.a[0], path)


@on(r"<.*Account<T>>::set_inner")
def set_inner(ip, st, av, c):
    p = acct_deref_mut(ip, st, av, c)
    ip.wr(st, ("c", p.a[0], p.a[1]), av[1])
    return UNIT


@on(r"<.*(Account|InterfaceAccount)<T>>::into_inner")
def into_inner(ip, st, av, c):
    return acct_deref(ip, st, av, c)


@on(r"<.*(Account|InterfaceAccount)<T>>::reload")
def reload(ip, st, av, c):
    p = acct_deref_mut(ip, st, av, c)
    acc = info_of(ip, st, av[0])
    cur = ip.rd(st, p.a[0], p.a[1])
    t = cur
    ty = None
    rt = ip.prog.tk(ip.prog.tk(c.atys[0]).get("t"))
    ty = ip.prog.ts(rt["a"][-1])
    ip.wr(st, ("c", p.a[0], p.a[1]), mk("data", acc, ty, st.ver) if st.ver else mk("data", acc, ty))
    return ok(UNIT)


@on(r"<.* as anchor_lang::AccountsExit>::exit", r"anchor_lang::AccountsExit::exit")
def acc_exit(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    v = av[0]
    if v.op == "ref":
        v = ip.deref(st, v)
    if v.op == "ref":
        v = ip.deref(st, v)
    ty = c.targs[0]
    d = ip.prog.tk(ty)
    while d.get("d") == BOX:
        d = ip.prog.tk(d["a"][0])
    if d.get("d") == ACCOUNT and v.op == "agg":
        ip.effect(st, "persist", v.a[3], ip.prog.ts(d["a"][-1]), v.a[2])
    return ok(UNIT)


@on(r"<.* as anchor_lang::AccountsClose>::close", r"anchor_lang::AccountsClose::close")
def acc_close(ip, st, av, c):
    ip.effect(st, "close", info_of(ip, st, av[0]), info_of(ip, st, av[1]))
    return ok(UNIT)


@on(r"<anchor_lang::context::Context<T>>::new")
def ctx_new(ip, st, av, c):
    return agg("anchor_lang::context::Context", "Context", *av)


CPI = "anchor_lang::context::CpiContext"


@on(r"<anchor_lang::context::CpiContext<T>>::new")
def cpi_new(ip, st, av, c):
    return agg(CPI, "CpiContext", av[1], agg("array", ""), av[0], agg("array", ""))


@on(r"<anchor_lang::context::CpiContext<T>>::new_with_signer")
def cpi_new_signer(ip, st, av, c):
    return agg(CPI, "CpiContext", av[1], agg("array", ""), av[0], av[2])


@on(r"<anchor_lang::context::CpiContext<T>>::with_signer")
def cpi_with_signer(ip, st, av, c):
    v = av[0]
    return agg(CPI, "CpiContext", v.a[2], v.a[3], v.a[4], av[1])


@on(r"<anchor_lang::context::CpiContext<T>>::with_remaining_accounts")
def cpi_with_rem(ip, st, av, c):
    v = av[0]
    return agg(CPI, "CpiContext", v.a[2], av[1], v.a[4], v.a[5])


def cpi_parts(ip, st, v):
    v = ip.snap(st, v)
    return v.a[2], v.a[3], v.a[4], v.a[5]     # accounts, remaining, program, seeds


def bump(st):
    st.ver += 1


def reowned(ip, st, acc, owner):
    """the account changed hands: what was known of its owner and contents no longer holds"""
    gone = {fld(acc, "owner"), fld(acc, "lamports"), mk("rawdata", acc)}
    for f in [f for f in st.facts if f.op in ("eq", "le") and any(x in gone for x in tm.subterms(f))]:
        del st.facts[f]
    for g in gone:
        st.eqc.pop(g, None)
        st.bounds.pop(g, None)
    if owner is not None:
        ip.assume(st, eq(fld(acc, "owner"), owner))


@on(r"anchor_lang::system_program::transfer")
def sys_transfer(ip, st, av, c):
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    ip.effect(st, "sys_transfer", a.a[2], a.a[3], av[1], seeds)      # moves lamports only: no account data changes
    return ok(UNIT)


@on(r"anchor_lang::system_program::create_account")
def sys_create(ip, st, av, c):
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    ip.effect(st, "sys_create", a.a[3], av[2], av[3])
    reowned(ip, st, a.a[3], av[3])
    return ok(UNIT)


@on(r"anchor_lang::system_program::allocate")
def sys_allocate(ip, st, av, c):
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    ip.effect(st, "sys_allocate", a.a[2], av[1])
    return ok(UNIT)


@on(r"anchor_lang::system_program::assign")
def sys_assign(ip, st, av, c):
    """anchor's init of a pre-funded account: [transfer,] allocate, assign == create_account"""
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    acc = a.a[2]
    eff = list(st.eff)
    space, payer = tm.sym("?"), tm.sym("?")
    if eff and eff[-1].kind == "sys_allocate" and eff[-1].a[0] is acc:
        space = eff.pop().a[1]
        if eff and eff[-1].kind == "sys_transfer" and eff[-1].a[1] is acc:
            payer = eff.pop().a[0]
        st.eff = tuple(eff)
    ip.effect(st, "sys_create", acc, space, av[1])
    reowned(ip, st, acc, av[1])
    return ok(UNIT)


@on(r"anchor_spl::associated_token::create")
def ata_create(ip, st, av, c):
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    x = tm.fields(a)
    ip.effect(st, "ata_create", x[1], x[2], x[3], x[5])
    bump(st)
    return ok(UNIT)


@on(r"anchor_spl::(token_2022|token|token_interface)::burn")
def burn(ip, st, av, c):
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    x = tm.fields(a)
    ip.effect(st, "burn", mint=x[0], src=x[1], auth=x[2], amount=av[1], seeds=seeds, program=prog)
    bump(st)
    return ok(UNIT)


@on(r"anchor_spl::(token_2022|token|token_interface)::mint_to")
def mint_to(ip, st, av, c):
    a, _, prog, seeds = cpi_parts(ip, st, av[0])
    x = tm.fields(a)
    ip.effect(st, "mint_to", mint=x[0], dst=x[1], auth=x[2], amount=av[1], seeds=seeds, program=prog)
    bump(st)
    return ok(UNIT)


@on(r"anchor_spl::(token_2022|token|token_interface)::transfer_checked")
def spl_transfer_checked(ip, st, av, c):
    a, rem, prog, seeds = cpi_parts(ip, st, av[0])
    x = tm.fields(a)
    ip.effect(st, "transfer", src=x[0], mint=x[1], dst=x[2], auth=x[3], amount=av[1], decimals=av[2], seeds=seeds, program=prog, extra=rem)
    bump(st)
    return ok(UNIT)


@on(r"anchor_spl::(token_2022|token|token_interface)::(set_authority|transfer|close_account|approve|revoke|freeze_account|thaw_account|.*)")
def spl_other(ip, st, av, c):
    if not av or av[0].op != "agg" or av[0].a[0] != CPI:
        return NotImplemented
    a, rem, prog, seeds = cpi_parts(ip, st, av[0])
    ip.effect(st, "spl:" + c.name.rsplit("::", 1)[-1], a, *av[1:], seeds)
    bump(st)
    return ok(UNIT)


@on(r"spl_token_2022::onchain::invoke_transfer_checked")
def invoke_transfer_checked(ip, st, av, c):
    n = ("program_id", "src", "mint", "dst", "auth", "extra", "amount", "decimals", "seeds")
    kw = dict(zip(n, av))
    ip.effect(st, "transfer", **kw)
    bump(st)
    return ok(UNIT)


@on(r"solana_program::system_instruction::transfer")
def sysix_transfer(ip, st, av, c):
    return tm.call("sysix.transfer", *[ip.snap(st, x) for x in av])


@on(r"(spl_token_2022|spl_token)::instruction::(mint_to|burn|transfer_checked)")
def splix(ip, st, av, c):
    """instruction of the token program, in Anchor's and the token program's own crate alike; fails only for an id that is no token program"""
    return [(ok(tm.call("splix." + strip_generics(c.name).rsplit("::", 1)[-1], *[ip.snap(st, x) for x in av])), st),
            (err(tm.sym("incorrect-program-id")), st.copy())]


def known_ix(ip, st, ix, infos, seeds):
    """an instruction built with the system or token program's own constructors, as the effect it has"""
    ix = ip.snap(st, ix)
    if ix.op != "call" or not str(ix.a[0]).startswith(("sysix.", "splix.")):
        return False
    infos = ip.snap(st, infos)
    if infos.op != "agg":
        return False
    accs = list(tm.fields(infos))

    def named(k):
        r = [a for a in accs if fld(a, "key") is k or a.op == "agg" and tm.proj(a, "key") is k]
        return r[0] if r else k.a[0] if k.op == "fld" and k.a[1] == "key" else mk("account-at", k)
    a = ix.a[1:]
    if ix.a[0] == "sysix.transfer":
        ip.effect(st, "sys_transfer", named(a[0]), named(a[1]), a[2], seeds)
        return True
    k = ix.a[0][6:]
    prog = named(a[0])
    if k == "mint_to":
        ip.effect(st, "mint_to", mint=named(a[1]), dst=named(a[2]), auth=named(a[3]), amount=a[5], seeds=seeds, program=prog)
    elif k == "burn":
        ip.effect(st, "burn", src=named(a[1]), mint=named(a[2]), auth=named(a[3]), amount=a[5], seeds=seeds, program=prog)
    else:
        ip.effect(st, "transfer", src=named(a[1]), mint=named(a[2]), dst=named(a[3]), auth=named(a[4]), amount=a[6], decimals=a[7], seeds=seeds, program=prog, extra=agg("array", ""))
    bump(st)
    return True


@on(r"solana_program::program::invoke_signed(_unchecked)?")
def invoke_signed(ip, st, av, c):
    if known_ix(ip, st, av[0], av[1], av[2]):
        return ok(UNIT)
    ip.effect(st, "invoke", ix=av[0], infos=av[1], seeds=av[2])
    bump(st)
    return ok(UNIT)


@on(r"solana_program::program::invoke(_unchecked)?")
def invoke(ip, st, av, c):
    if known_ix(ip, st, av[0], av[1], agg("array", "")):
        return ok(UNIT)
    ip.effect(st, "invoke", ix=av[0], infos=av[1], seeds=agg("array", ""))
    bump(st)
    return ok(UNIT)


@on(r"solana_program::program::set_return_data")
def set_return_data(ip, st, av, c):
    ip.effect(st, "return_data", av[0])
    return UNIT


@on(r"solana_program::program::get_return_data")
def get_return_data(ip, st, av, c):
    # what the last CPI returned
    last = [e for e in st.eff if e.kind == "invoke"]
    return mk("retdata", I(st.ver), *( [last[-1].kw["ix"]] if last else []))


@on(r"wormhole_solana_utils::cpi::bpf_loader_upgradeable::.*set_upgrade_authority(_checked)?")
def set_upgrade_authority(ip, st, av, c):
    checked = strip_generics(c.name).endswith("_checked")
    a, rem, prog, seeds = cpi_parts(ip, st, av[0])
    ip.effect(st, "set_upgrade_authority", accounts=a, seeds=seeds, checked=B(checked), program=prog)
    bump(st)
    return ok(UNIT)


@on(r"solana_program::sysvar::Sysvar::get", r".* as solana_program::sysvar::Sysvar>::get")
def sysvar_get(ip, st, av, c):
    t = ip.prog.ts(c.targs[0])
    return ok(mk("sysvar", t))


@on(r"<solana_program::pubkey::Pubkey>::find_program_address")
def find_pda(ip, st, av, c):
    s, p = seedcat(ip.snap(st, av[0])), ip.snap(st, av[1])
    return tup(mk("pda", s, p), mk("bump", s, p))


@on(r"<solana_program::pubkey::Pubkey>::create_program_address")
def create_pda(ip, st, av, c):
    s, p = ip.snap(st, av[0]), ip.snap(st, av[1])
    e = st.copy()
    return [(ok(mk_pda1(s, p)), st), (err(tm.sym("anyerr")), e)]


def seedcat(s):
    """an address is derived from the concatenation of its seeds"""
    return cat(*s.a[2:]) if s.op == "agg" and s.a[0] == "array" else mk("seeds", s)


def mk_pda1(s, p):
    if s.op == "agg" and len(s.a) > 3:
        last = s.a[-1]
        seeds = cat(*s.a[2:-1])
        if last.op == "agg" and len(last.a) == 3:
            b = last.a[2]
            if b is mk("bump", seeds, p):
                return mk("pda", seeds, p)
            return mk("pdab", seeds, p, b)
    return mk("pda1", s, p)


@on(r"<solana_program::pubkey::Pubkey>::(new_from_array|to_bytes|as_array)", r"<solana_program::keccak::Hash>::(to_bytes|new_from_array)")
def ident_pk(ip, st, av, c):
    return av[0]


@on(r"(spl_associated_token_account|anchor_spl::associated_token)::get_associated_token_address_with_program_id")
def ata(ip, st, av, c):
    return mk("ata", *[ip.snap(st, a) for a in av])


@on(r"(spl_associated_token_account|anchor_spl::associated_token)::get_associated_token_address")
def ata1(ip, st, av, c):
    return mk("ata", *[ip.snap(st, a) for a in av], mk("progid", "spl_token"))


@on(r"solana_program::keccak::hashv")
def hashv(ip, st, av, c):
    v = ip.snap(st, av[0])
    if v.op == "agg":
        return mk("keccak", cat(*tm.fields(v)))
    return mk("keccak", v)


@on(r"<solana_program::keccak::Hasher>::(hash|hashv|result)", r"<solana_program::keccak::Hasher as core::default::Default>::default")
def hasher(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    if n == "default":
        return mk("hasher", X(b""))
    h = val(ip, st, av[0])
    if n == "result":
        return mk("keccak", h.a[0]) if h.op == "hasher" else NotImplemented
    more = ip.snap(st, av[1])
    parts = list(tm.fields(more)) if n == "hashv" and more.op == "agg" else [more]
    if h.op != "hasher" or (n == "hashv" and more.op != "agg"):
        return NotImplemented
    ip.store_through(st, av[0], mk("hasher", cat(h.a[0], *parts)))
    return UNIT


@on(r"solana_program::keccak::hash")
def hash1(ip, st, av, c):
    return mk("keccak", cat(ip.snap(st, av[0])))


@on(r"solana_program::log::.*", r"<anchor_lang::error::Error>::log", r"<core::fmt::Arguments>::.*", r"<core::fmt::rt::Argument.*>::.*",
    r"alloc::fmt::format", r"core::fmt::.*", r"<core::fmt::Formatter>::.*")
def nolog(ip, st, av, c):
    return UNIT if "log" in c.name else tm.sym("fmt")


@on(r"<anchor_lang::error::Error>::with_.*", r"<anchor_lang::error::Error as .*From<.*>>::from",
    r"<solana_program::program_error::ProgramError as .*From<.*>>::from")
def err_with(ip, st, av, c):
    return av[0]


@on(r"<anchor_lang::error::ErrorCode>::name", r"<.*(Error|ErrorCode)>::name", r".*ToString>?::to_string", r"alloc::string::ToString::to_string",
    r"<.* as core::convert::From<(.*Error|.*ErrorCode)>>::from", r"<.*error::NTTError>::name")
def err_name(ip, st, av, c):
    if c.r in ip.prog.raw:
        if c.name.endswith("::name"):
            return tm.sym("name")
        return NotImplemented
    return av[0] if "From" in c.name else tm.sym("string")


# ---------------------------------------------------------------- (de)serialise
def arg_type(c, i=0):
    return c.ip.prog.ts(c.targs[i])


def borsh_size(p, ty):
    """size of the Borsh encoding when every value of the type has the same one, else None"""
    d = p.tk(ty)
    if d["k"] == "int":
        return d["n"] // 8
    if d["k"] == "bool":
        return None                    # not every byte decodes: kept opaque
    if d["k"] == "array":
        n = borsh_size(p, d["t"])
        return None if n is None or not isinstance(d["n"], int) else n * d["n"]
    if d["k"] == "adt":
        if d["d"] == "solana_program::pubkey::Pubkey":
            return 32
        fs = borsh_fields(p, ty)
        if fs is None:
            return None
        ns = [borsh_size(p, t) for _, t in fs]
        return None if None in ns else sum(ns)
    return None


def borsh_fields(p, ty):
    d = p.tk(ty)
    a = p.adts.get(d.get("d"))
    if a is None or a["kind"] != "struct" or d["d"] in mir.TRANSPARENT:
        return None
    if any(re.match(r"<" + re.escape(d["d"]) + r"(<.*>)? as .*Deserialize>::deserialize(_reader)?(#poly)?$", k) and not p.derived_impl(k) for k in p.raw):
        return None
    out = []
    for n, t in a["v"][0]["f"]:
        e = p.tk(t)
        if e["k"] == "param":
            if len(d["a"]) != 1:
                return None
            t = d["a"][0]
        elif e["k"] == "adt" and any(p.tk(x)["k"] == "param" for x in e["a"]):
            if len(d["a"]) != 1 or len(e["a"]) != 1:
                return None
            w = [k for k, x in p.types.items() if x["k"] == "adt" and x["d"] == e["d"] and x["a"] == d["a"]]
            if not w:
                return None
            t = w[0]
        out.append((n, t))
    return out


def borsh_read(ip, ty, src, off):
    """what Borsh decodes at `off` of `src`; fixed-size structs are split into their fields at
    their byte offsets, so a zero-copy accessor and a full decode of the same bytes agree"""
    p = ip.prog
    if src.op == "slice" and off.op == "int" and src.a[1].op == "int" and src.a[2] is mk("len", src.a[0]):
        src, off = src.a[0], I(src.a[1].a[0] + off.a[0])
    n = borsh_size(p, ty) if off.op == "int" else None
    if n is None:
        return mk("borsh_de", p.ts(ty), src, off)
    d, o = p.tk(ty), off.a[0]

    def piece(lo, hi):
        return mk("slice", src, I(lo), I(hi))
    if d["k"] == "int":
        v = mk("from", piece(o, o + n), "le", n)
        ip.typed(v, ty)
        return v
    if d["k"] == "array" or d["d"] == "solana_program::pubkey::Pubkey":
        if d["k"] == "array" and borsh_size(p, d["t"]) != 1:
            return mk("borsh_de", p.ts(ty), src, off)
        v = piece(o, o + n)
        ip.lens[v] = n
        return v
    vals = []
    for _, t in borsh_fields(p, ty):
        vals.append(borsh_read(ip, t, src, I(o)))
        o += borsh_size(p, t)
    return agg(d["d"], p.adts[d["d"]]["v"][0]["n"], *vals)


def hand_written(ip, c):
    """an implementation in the source that is not derived is followed, not assumed"""
    return c.r in ip.prog.raw and not ip.prog.derived_impl(c.r)


@on(r".* as borsh::de::BorshDeserialize>::deserialize", r"borsh::de::BorshDeserialize::deserialize",
    r".* as anchor_lang::AnchorDeserialize>::deserialize")
def deserialize(ip, st, av, c):
    if hand_written(ip, c):
        return NotImplemented
    r = av[0]
    cur = ip.deref(st, r)
    t = arg_type(c)
    e = st.copy()
    src, off = (cur.a[0], cur.a[1]) if cur.op == "cursor" else (cur, I(0))
    v = borsh_read(ip, c.targs[0], ip.snap(st, src), off) if src.op != "ixdata" else mk("ix", t)
    nxt = mk("cursor", src, mk("after", v))
    if r.op == "ref":
        ip.store_through(st, r, nxt)
    return [(ok(v), st), (err(tm.sym("anyerr")), e)]


@on(r".*BorshDeserialize(>)?::try_from_slice")
def try_from_slice(ip, st, av, c):
    e = st.copy()
    return [(ok(borsh_read(ip, c.targs[0], ip.snap(st, av[0]), I(0))), st), (err(tm.sym("anyerr")), e)]


@on(r".*BorshSerialize(>)?::try_to_vec", r"borsh::ser::helpers::to_vec", r"borsh::to_vec")
def try_to_vec(ip, st, av, c):
    return ok(mk("borsh", ip.snap(st, av[0])))


@on(r".* as borsh::ser::BorshSerialize>::serialize", r"borsh::ser::BorshSerialize::serialize")
def borsh_ser(ip, st, av, c):
    """x.serialize(&mut w): appends the borsh encoding"""
    if av[1].op != "ref" or hand_written(ip, c):
        return NotImplemented
    cur = ip.deref(st, av[1])
    x = ip.snap(st, av[0])
    ip.store_through(st, av[1], cat(cur, mk("borsh", x)))
    return ok(UNIT)


# ------------------------------------------------------------------- bitmaps
@on(r"<bitmaps::bitmap::Bitmap<SIZE>>::(from_value|as_value|into_value)")
def bm_ident(ip, st, av, c):
    return av[0]


@on(r"<bitmaps::bitmap::Bitmap<SIZE>>::new")
def bm_new(ip, st, av, c):
    return I(0)


@on(r"<bitmaps::bitmap::Bitmap<SIZE>>::get")
def bm_get(ip, st, av, c):
    return tm.bit(av[0], av[1])


@on(r"<bitmaps::bitmap::Bitmap<SIZE>>::set")
def bm_set(ip, st, av, c):
    cur = ip.deref(st, av[0])
    ip.store_through(st, av[0], tm.setbit(cur, av[1], av[2]))
    return tm.bit(cur, av[1])


@on(r"<bitmaps::bitmap::Bitmap<SIZE>>::len", r"<u(8|16|32|64|128)>::count_ones", r"core::intrinsics::ctpop")
def bm_len(ip, st, av, c):
    return I(bin(av[0].a[0]).count("1")) if av[0].op == "int" else mk("popcount", av[0])


@on(r"<bitmaps::bitmap::Bitmap<SIZE>>::is_empty")
def bm_empty(ip, st, av, c):
    return eq(av[0], I(0), True)


@on(r"<bitmaps::bitmap::Bitmap<SIZE> as core::ops::bit::(BitAnd|BitOr|BitXor)(<.*>)?>::.*")
def bm_and(ip, st, av, c):
    return tm.comm({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[re.search(r"bit::(\w+)[<>]", c.name).group(1)], av[0], av[1])


@on(r"<.*Bitmap<SIZE> as core::ops::bit::Not>::not")
def bm_not(ip, st, av, c):
    return mk("bnot", av[0], "bm")


# ------------------------------------------------------------------- integers
INT = r"<([ui](?:8|16|32|64|128|size))>::"


def int_of(name):
    m = re.match(r"<([ui])(8|16|32|64|128|size)>", name)
    n = 64 if m.group(2) == "size" else int(m.group(2))
    return n, m.group(1) == "i"


def rng(name):
    n, s = int_of(name)
    return (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)


def exact(op, a, b):
    return {"add": tm.add, "sub": tm.sub, "mul": tm.mul, "div": tm.div, "rem": tm.rem, "pow": powt}[op](a, b)


def powt(a, b):
    if a.op == b.op == "int" and b.a[0] < 400:
        return I(a.a[0] ** b.a[0])
    return mk("pow", a, b)


@on(INT + r"checked_(add|sub|mul|div|rem|pow)")
def checked(ip, st, av, c):
    op = strip_generics(c.name).rsplit("_", 1)[-1]
    v = exact(op, av[0], av[1])
    lo, hi = rng(c.name)
    if v.op == "int":
        return some(v) if lo <= v.a[0] <= hi else NONE
    if op in ("div", "rem"):
        out = []
        for b, s in ip.fork(st, eq(av[1], I(0), True)):
            out.append((NONE if b else some(v), s))
        return out
    if op == "sub" and lo == 0:
        return [(some(v) if b else NONE, s) for b, s in ip.fork(st, le(av[1], av[0], True))]
    return [(some(v) if b else NONE, s) for b, s in ip.fork(st, fits_in(v, lo, hi))]


@on(INT + r"(unchecked|strict)_(add|sub|mul)")
def unchecked(ip, st, av, c):
    return exact(strip_generics(c.name).rsplit("_", 1)[-1], av[0], av[1])


@on(INT + r"pow")
def ipow(ip, st, av, c):
    return powt(av[0], av[1])


def fits(ip, st, op, a, b, v, lo, hi):
    """[(fits, state)]: whether the exact result of the operation is a value of the type"""
    if v.op == "int":
        return [(lo <= v.a[0] <= hi, st)]
    if op == "sub" and lo == 0:
        return ip.fork(st, le(b, a, True))
    if op in ("div", "rem") and lo == 0:
        return [(True, st)]
    return ip.fork(st, fits_in(v, lo, hi))


@on(INT + r"wrapping_(add|sub|mul|pow|div|rem|neg|shl|shr)", INT + r"overflowing_\w+")
def wrapping(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    kind, op = n.split("_", 1)
    if op not in ("add", "sub", "mul", "pow"):
        return mk("wrap", n, *av)
    lo, hi = rng(c.name)
    v = exact(op, av[0], av[1])
    if v.op == "int":
        m = 1 << int_of(c.name)[0]
        w = I((v.a[0] - lo) % m + lo)
    else:
        w = mk("wrap", n, *av)
    out = []
    for b, s in fits(ip, st, op, av[0], av[1], v, lo, hi):
        r = v if b else w
        out.append((r if kind == "wrapping" else tm.tup(r, tm.FALSE if b else tm.TRUE), s))
    return out


@on(INT + r"checked_(shl|shr)")
def checked_shift(ip, st, av, c):
    n = int_of(c.name)[0]
    op = "Shl" if c.name.endswith("shl") else "Shr"
    out = []
    for b, s in ip.fork(st, lt(av[1], I(n), True)):
        if not b:
            out.append((NONE, s))
            continue
        v = ip.shifted(s, op, av[0], av[1], c.atys[0])
        out.append((some(v if v is not None else ip.binop(op, av[0], av[1], c.atys[0])), s))
    return out


@on(INT + r"checked_(neg|abs)", INT + r"(abs|unsigned_abs|signum|is_positive|is_negative|is_multiple_of|div_ceil|div_euclid|rem_euclid|checked_div_euclid|checked_rem_euclid|midpoint|next_multiple_of|saturating_div)")
def int_more(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    bits, signed = int_of(c.name)
    lo, hi = rng(c.name)
    a = av[0]
    if n in ("abs", "unsigned_abs"):
        return [(a if b else tm.sub(I(0), a), s) for b, s in ip.fork(st, le(I(0), a))]
    if n == "is_positive":
        return lt(I(0), a)
    if n == "is_negative":
        return lt(a, I(0))
    if n == "signum":
        out = []
        for b, s in ip.fork(st, le(a, I(0))):
            out += [(I(1), s)] if not b else [(I(-1) if b2 else I(0), s2) for b2, s2 in ip.fork(s, lt(a, I(0)))]
        return out
    if signed:
        return NotImplemented
    if n == "is_multiple_of":
        return [(eq(a, I(0), True) if b else eq(tm.rem(a, av[1]), I(0), True), s) for b, s in ip.fork(st, eq(av[1], I(0), True))]
    if n in ("div_euclid", "saturating_div", "rem_euclid", "checked_div_euclid", "checked_rem_euclid"):
        v = (tm.rem if "rem" in n else tm.div)(a, av[1])
        out = []
        for b, s in ip.fork(st, eq(av[1], I(0), True)):
            if n.startswith("checked"):
                out.append((NONE if b else some(v), s))
            elif not b:
                out.append((v, s))
        return out
    if n == "div_ceil":
        out = []
        for b, s in ip.fork(st, eq(av[1], I(0), True)):
            if not b:
                out += [(tm.div(a, av[1]) if z else tm.add(tm.div(a, av[1]), I(1)), s2) for z, s2 in ip.fork(s, eq(tm.rem(a, av[1]), I(0), True))]
        return out
    return NotImplemented


@on(INT + r"(checked|saturating)_(add|sub)_(signed|unsigned)")
def checked_mixed(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1].split("_")
    v = exact(n[1], av[0], av[1])
    lo, hi = rng(c.name)
    if n[0] == "checked":
        return [(some(v) if b else NONE, s) for b, s in ip.fork(st, b_and(le(v, I(hi)), le(I(lo), v)))]
    out = []
    for b, s in ip.fork(st, le(v, I(hi))):
        out += [(I(hi), s)] if not b else [(v if b2 else I(lo), s2) for b2, s2 in ip.fork(s, le(I(lo), v))]
    return out


@on(INT + r"saturating_(add|sub|mul|pow)")
def saturating(ip, st, av, c):
    op = strip_generics(c.name).rsplit("_", 1)[-1]
    v = exact(op, av[0], av[1])
    lo, hi = rng(c.name)
    if v.op == "int":
        return I(max(lo, min(hi, v.a[0])))
    if op == "sub" and lo == 0:
        return [(v if b else I(0), s) for b, s in ip.fork(st, le(av[1], av[0], True))]
    out = []
    for b, s in ip.fork(st, le(v, I(hi))):
        if not b:
            s.facts[mk("saturated", v, I(hi))] = True
            out.append((I(hi), s))
        elif lo < 0:
            out += [(v if b2 else I(lo), s2) for b2, s2 in ip.fork(s, le(I(lo), v))]
        else:
            out.append((v, s))
    return out


def fits_in(v, lo, hi):
    """v within the type; unsigned results of add/mul/pow cannot be negative"""
    return le(v, I(hi)) if lo == 0 else b_and(le(v, I(hi)), le(I(lo), v))


@on(INT + r"abs_diff")
def abs_diff(ip, st, av, c):
    return [(tm.sub(av[0], av[1]) if b else tm.sub(av[1], av[0]), s) for b, s in ip.fork(st, le(av[1], av[0], not int_of(c.name)[1]))]


@on(INT + r"to_(be|le|ne)_bytes")
def to_bytes(ip, st, av, c):
    n = int_of(c.name)[0] // 8
    e = re.search(r"to_(..)_bytes", c.name).group(1)
    v = av[0]
    if v.op == "int":
        return X((v.a[0] & ((1 << 8 * n) - 1)).to_bytes(n, "big" if e == "be" else "little"))
    if n == 1:
        return agg("array", "u8", v)
    if v.op == "from" and v.a[1] == e and v.a[2] == n:
        return v.a[0]
    t = mk("tob", v, e, n)
    ip.lens[t] = n
    return t


@on(INT + r"from_(be|le|ne)_bytes")
def from_bytes(ip, st, av, c):
    n = int_of(c.name)[0] // 8
    e = re.search(r"from_(..)_bytes", c.name).group(1)
    v = ip.snap(st, av[0])
    if v.op == "bytes":
        return I(int.from_bytes(v.a[0], "big" if e == "be" else "little", signed=int_of(c.name)[1]))
    if v.op == "tob" and v.a[1] == e and v.a[2] == n:
        return v.a[0]
    if v.op == "agg" and len(set(tm.fields(v))) == n > 1:
        # bytes picked out one by one
        r = tm.joined({x: 256 ** (i if e == "le" else n - 1 - i) for i, x in enumerate(tm.fields(v))})
        if r is not None:
            return r
    return mk("from", v, e, n)


@on(INT + r"(swap_bytes|to_be|to_le|from_be|from_le|reverse_bits|rotate_left|rotate_right)")
def int_opaque(ip, st, av, c):
    return mk("intop", strip_generics(c.name).rsplit("::", 1)[-1], *av)


@on(INT + r"(is_power_of_two|leading_zeros|trailing_zeros)")
def int_opaque2(ip, st, av, c):
    return mk("intop", strip_generics(c.name).rsplit("::", 1)[-1], *av)


@on(INT + r"try_from", r"<.* as core::convert::TryFrom<.*>>::try_from", r".* as core::convert::TryInto<.*>>::try_into", r"core::convert::Try(From|Into)::try_(from|into)")
def try_from_int(ip, st, av, c):
    p = ip.prog
    src = p.int_ty(c.atys[0]) if c.atys[0] is not None else None
    rt = p.tk(c.rty)
    dty = (rt.get("a") or [None])[0]
    dst = p.int_ty(dty) if dty is not None else None
    if src and dst:
        v = av[0]
        if v.op == "int":
            lo, hi = (-(1 << dst[0] - 1), (1 << dst[0] - 1) - 1) if dst[1] else (0, (1 << dst[0]) - 1)
            return ok(v) if lo <= v.a[0] <= hi else err(tm.sym("anyerr"))
        if ip.intcast(v, src, dst) is v:
            return ok(v)
        lo, hi = (-(1 << dst[0] - 1), (1 << dst[0] - 1) - 1) if dst[1] else (0, (1 << dst[0]) - 1)
        cond = le(v, I(hi)) if not src[1] and lo == 0 else b_and(le(v, I(hi)), le(I(lo), v))
        return [(ok(v) if b else err(tm.sym("anyerr")), s) for b, s in ip.fork(st, cond)]
    # &[T] -> [T; N] / &[T; N]
    d = p.tk(dty) if dty is not None else {}
    if d.get("k") == "ref":
        d = p.tk(d["t"])
    if d.get("k") == "array":
        v = ip.snap(st, av[0])
        n = ip.length(v)
        if n == I(d["n"]):
            return ok(v)
        if n.op == "int":
            return err(tm.sym("anyerr"))
        out = []
        for b, s in ip.fork(st, eq(n, I(d["n"]), True)):
            if b:
                ip.lens[v] = d["n"]
            out.append((ok(v) if b else err(tm.sym("anyerr")), s))
        return out
    return NotImplemented


def is_int_call(c):
    t = c.ip.prog.tk(c.atys[0]) if c.atys and c.atys[0] is not None else {}
    for _ in range(3):
        if t.get("k") == "ref":
            t = c.ip.prog.tk(t["t"])
    return t.get("k") in ("int", "char")


def argty(c, i=0):
    t = c.ip.prog.tk(c.atys[i]) if c.atys[i] is not None else {}
    for _ in range(4):
        if t.get("k") == "ref":
            t = c.ip.prog.tk(t["t"])
    return t


def val(ip, st, v):
    for _ in range(6):
        if v.op == "ref":
            v = ip.deref(st, v)
        else:
            break
    return v


def pick(ip, st, cond, a, b):
    return [(a if x else b, s) for x, s in ip.fork(st, cond)]


@on(r"core::cmp::Ord::(min|max|clamp)", r"<.* as core::cmp::Ord>::(min|max|clamp)", r"core::cmp::(min|max)",
    r"core::intrinsics::integer_(min|max)", INT + "(min|max|clamp)")
def minmax(ip, st, av, c):
    if not is_int_call(c):
        return NotImplemented
    t = argty(c)
    u = not t.get("s")
    n = strip_generics(c.name).rsplit("::", 1)[-1].replace("integer_", "")
    if n == "min":
        return pick(ip, st, le(av[0], av[1], u), av[0], av[1])
    if n == "max":
        return pick(ip, st, le(av[1], av[0], u), av[0], av[1])
    out = []
    for b, s in ip.fork(st, lt(av[0], av[1], u)):
        out += [(av[1], s)] if b else pick(ip, s, lt(av[2], av[0], u), av[2], av[0])
    return out


@on(r".*core::cmp::PartialOrd.*::(lt|le|gt|ge)")
def pord(ip, st, av, c):
    if not is_int_call(c):
        return NotImplemented
    a, b = val(ip, st, av[0]), val(ip, st, av[1])
    u = not argty(c).get("s")
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    return {"lt": lambda: lt(a, b, u), "le": lambda: le(a, b, u), "gt": lambda: lt(b, a, u), "ge": lambda: le(b, a, u)}[n]()


@on(r".*core::cmp::(Ord|PartialOrd).*::(cmp|partial_cmp)")
def ocmp(ip, st, av, c):
    if not is_int_call(c):
        return NotImplemented
    r = mk("cmp3", val(ip, st, av[0]), val(ip, st, av[1]), "s" if argty(c).get("s") else "u")
    return some(r) if "partial_cmp" in c.name else r


@on(r"core::cmp::Ordering::(is_lt|is_le|is_eq|is_ne|is_ge|is_gt|reverse)")
def ord_is(ip, st, av, c):
    x = val(ip, st, av[0])
    if x.op != "cmp3":
        return NotImplemented
    n = c.name.rsplit("::", 1)[-1]
    if n == "reverse":
        return mk("cmp3", x.a[1], x.a[0], x.a[2])
    a, b, u = x.a[0], x.a[1], x.a[2] == "u"
    return {"is_lt": lambda: lt(a, b, u), "is_le": lambda: le(a, b, u), "is_gt": lambda: lt(b, a, u), "is_ge": lambda: le(b, a, u),
            "is_eq": lambda: eq(a, b, True), "is_ne": lambda: tm.b_not(eq(a, b, True))}[n]()


OWN = re.compile(r"[<&(\[ ]*(mut |dyn )*(example_native_token_transfers|ntt_messages|ntt_quoter|ntt_transceiver|wormhole_governance|dummy_transfer_hook)::")


def own(ip, k):
    """whether a function is written (or derived) in the repository, in whichever of its crates"""
    b = ip.prog.raw.get(k)
    if b is None:
        return False
    if "own" not in b:
        b["own"] = bool(b["local"] or OWN.match(k))
    return b["own"]


def local_eq(ip, ty):
    """the repository's own PartialEq of a type, if any"""
    d = ip.prog.tk(ty)
    if d["k"] != "adt":
        return None
    n = d["d"]
    cache = ip.prog.__dict__.setdefault("_eqs", {})
    if n not in cache:
        pat = re.compile(re.escape("<" + n) + r"(<.*>)? as core::cmp::PartialEq(<" + re.escape(n) + r"(<.*>)?>)?>::eq")
        cache[n] = [k for df, ks in ip.prog.bydef.items() if pat.fullmatch(df) for k in ks if not ip.prog.raw[k]["poly"] and own(ip, k)]
    ks = cache[n]
    return ks[0] if ks else None


@on(r".*core::cmp::PartialEq.*::(eq|ne)", r"core::array::equality::SpecArrayEq::spec_(eq|ne)", r".*SlicePartialEq.*::(equal|equal_same_length|not_equal)",
    r".*SpecArrayEq.*::spec_(eq|ne)")
def peq(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    if not n.endswith("ne") and c.r in ip.prog.raw:
        b = ip.prog.raw[c.r]
        if own(ip, c.r) or c.name.startswith("<core::option"):
            return NotImplemented
    a, b = val(ip, st, av[0]), val(ip, st, av[1])
    if n in ("ne",):
        t = c.ip.prog.tk(c.atys[0]) if c.atys[0] is not None else {}
        ty = t.get("t")
        while ty is not None and ip.prog.tk(ty)["k"] == "ref":
            ty = ip.prog.tk(ty)["t"]
        k = local_eq(ip, ty) if ty is not None else None
        if k:
            return [(b_not(v), s) for v, s in ip.run(k, [a, b], st)]
    t = argty(c)
    r = beq(ip, ip.snap(st, a), ip.snap(st, b), t)
    return r if not n.endswith("ne") and n != "not_equal" else b_not(r)


def beq(ip, a, b, t):
    if t.get("k") == "bool":
        return ip.binop("Eq", a, b, t["T"])
    return eq(a, b, t.get("k") in ("int", "char"))


# ----------------------------------------------------------- conversions/refs
@on(r"core::intrinsics::(likely|unlikely)", r"core::hint::(must_use|black_box)", r"core::convert::identity",
    r"<.* as core::clone::Clone>::clone", r"core::clone::Clone::clone", r".*SpecArrayClone.*::clone", r"core::array::SpecArrayClone::clone",
    r"<.* as core::borrow::Borrow<.*>>::borrow", r"core::borrow::Borrow::borrow",
    r"<.* as core::convert::AsRef<.*>>::as_ref", r"core::convert::AsRef::as_ref",
    r"<.* as core::convert::AsMut<.*>>::as_mut",
    r"<\[T;N\]>::(as_slice|as_mut_slice|each_ref)", r"<\[T\]>::(to_vec|into_vec|as_ref|to_owned|as_array)", r".*ConvertVec::to_vec", r".*ToOwned.*::to_owned",
    r"<alloc::vec::Vec<T(,A)?>>::(as_slice|into_boxed_slice|as_mut_slice)", r"<alloc::string::String>::(as_str|as_bytes|into_bytes|from)", r"<str>::as_bytes",
    r"<.* as core::iter::traits::collect::IntoIterator>::into_iter_ident",
    r"alloc::boxed::box_assume_init_into_vec_unsafe", r"alloc::slice::box_assume_init_into_vec_unsafe",
    r"<core::cell::Ref.*>::.*", r"<core::cell::Ref<.*> as .*Deref>::deref", r"<alloc::vec::Vec<.*> as core::ops::deref::Deref(Mut)?>::deref(_mut)?",
    r"<alloc::string::String as .*Deref>::deref", r"<alloc::boxed::Box<.*> as .*Deref(Mut)?>::deref(_mut)?",
    r"<anchor_spl::.* as core::ops::deref::Deref>::deref", r"<core::mem::.* as core::ops::deref::Deref>::deref",
    r"<&(mut )?.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?", r"<alloc::borrow::Cow.*>::.*",
    r"<alloc::rc.*>::deref")
def ident(ip, st, av, c):
    if own(ip, c.r):
        return NotImplemented
    v = av[0]
    if "box_assume_init" in c.name:
        v = val(ip, st, v)
    if "::clone" in c.name or "to_vec" in c.name:
        v = ip.snap(st, v)
    if "as_ref" in c.name and v.op == "ref":
        v = val(ip, st, v)
    return v


@on(r"core::ops::deref::Deref::deref", r"core::ops::deref::DerefMut::deref_mut")
def deref_any(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    return av[0]


@on(r"<.* as core::convert::(From|Into)<.*>>::(from|into)", r"core::convert::(From|Into)::(from|into)")
def from_into(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    v = av[0]
    if ip.prog.tk(c.rty)["k"] == "int" and c.atys[0] is not None and ip.prog.tk(c.atys[0])["k"] == "bool":
        return I(1 if v.a[0] else 0) if v.op == "bool" else mk("b2i", v)
    if v.op == "ref" and ip.prog.tk(c.rty).get("d") == "alloc::vec::Vec":
        return val(ip, st, v)
    return v


@on(r"<alloc::boxed::Box<T(,.*)?>>::new")
def box_new(ip, st, av, c):
    return ip.alloc(st, av[0])


@on(r"<alloc::boxed::Box<T(,.*)?>>::new_uninit")
def box_uninit(ip, st, av, c):
    return ip.alloc(st, tm.sym("uninit"))


@on(r"core::mem::(replace|take|swap)")
def mem_ops(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    old = ip.deref(st, av[0])
    if n == "swap":
        new = ip.deref(st, av[1])
        ip.store_through(st, av[0], new)
        ip.store_through(st, av[1], old)
        return UNIT
    ip.store_through(st, av[0], av[1] if n == "replace" else tm.call("default", S(ip.prog.ts(c.rty))))
    return old


@on(r"core::mem::(drop|forget)", r"core::ptr::drop_in_place")
def drop_(ip, st, av, c):
    return UNIT


@on(r"core::mem::size_of", r"core::intrinsics::size_of")
def size_of(ip, st, av, c):
    r = ip.prog.int_ty(c.targs[0])
    return I(r[0] // 8) if r else tm.call("size_of", S(ip.prog.ts(c.targs[0])))


@on(r"core::option::(unwrap_failed|expect_failed)", r"core::result::unwrap_failed.*", r"core::panicking::.*", r"core::slice::index::.*fail.*", r"core::cell::panic.*")
def panics(ip, st, av, c):
    return []


@on(r"<solana_program::program_option::COption<T>>::unwrap")
def coption_unwrap(ip, st, av, c):
    v = av[0]
    if v.op == "agg":
        return v.a[2] if v.a[1] == "Some" else []
    if not ip.assume(st, tm.isv(v, "solana_program::program_option::COption", "Some")):
        return []
    return mk("vfld", v, "Some", "0")


@on(r"<.* as core::default::Default>::default", r"core::default::Default::default")
def default(ip, st, av, c):
    if c.r in ip.prog.raw:
        return NotImplemented
    d = ip.prog.tk(c.rty)
    if d["k"] == "int":
        return I(0)
    if d["k"] == "bool":
        return FALSE
    if d.get("d") == OPTION:
        return NONE
    if d.get("d") in ("alloc::vec::Vec", "alloc::string::String"):
        return EMPTY
    if d.get("d") == "bitmaps::bitmap::Bitmap":
        return I(0)
    if d.get("d") == "solana_program::pubkey::Pubkey":
        return X(bytes(32))
    if d["k"] == "array" and ip.prog.tk(d["t"])["k"] == "int" and d["n"] <= 64:
        return agg("array", ip.prog.intname(d["t"]), *[I(0)] * d["n"])
    return tm.call("default", S(ip.prog.ts(c.rty)))


@on(r"<&?u(8|16|32|64|128|size) as core::ops::bit::(Shl|Shr|BitAnd|BitOr|BitXor)<&u(8|16|32|64|128|size)>>::\w+",
    r"<&u(8|16|32|64|128|size) as core::ops::bit::(Shl|Shr|BitAnd|BitOr|BitXor)<u(8|16|32|64|128|size)>>::\w+")
def ref_bitop(ip, st, av, c):
    """a bit operation on references to numbers"""
    a, b = val(ip, st, av[0]), val(ip, st, av[1])
    op = re.search(r"bit::(\w+)<", c.name).group(1)
    if op in ("Shl", "Shr"):
        n = int(re.match(r"<&?u(\d+|size)", c.name).group(1).replace("size", "64"))
        if not ip.assume(st, lt(b, I(n), True)):
            return []
    v = ip.shifted(st, op, a, b, c.rty)
    return v if v is not None else ip.binop(op, a, b, c.rty)


@on(r"<&?bool as core::ops::bit::Not>::not")
def bool_not(ip, st, av, c):
    return b_not(val(ip, st, av[0]))


@on(r"<solana_program::instruction::AccountMeta>::(new|new_readonly)")
def account_meta(ip, st, av, c):
    w = "readonly" not in strip_generics(c.name)
    return agg("solana_program::instruction::AccountMeta", "AccountMeta", av[0], av[1], B(w))


@on(r"<solana_program::instruction::Instruction>::new_with_bytes")
def ix_new(ip, st, av, c):
    return agg("solana_program::instruction::Instruction", "Instruction", av[0], av[2], ip.snap(st, av[1]))


@on(r"<alloc::collections::btree.*>::new", r"<.*BTree.*>::new")
def btree_new(ip, st, av, c):
    return tm.sym("btree")


# --------------------------------------------------------------- slices, vecs
@on(r"<alloc::vec::Vec<T.*>>::(new|with_capacity)", r"<alloc::string::String>::(new|with_capacity)")
def vec_new(ip, st, av, c):
    return EMPTY


def elems(v):
    """the elements of a list value when they are known"""
    if v.op == "agg" and v.a[0] == "array":
        return list(tm.fields(v))
    if v.op == "bytes":
        return [I(b) for b in v.a[0]]
    return None


@on(r"<alloc::vec::Vec<T.*>>::push")
def vec_push(ip, st, av, c):
    cur = ip.deref(st, av[0])
    x = av[1]
    ty = argty(c, 1)
    ip.store_through(st, av[0], cat(cur, agg("array", ip.prog.ts(c.atys[1]) if c.atys[1] is not None else "", x)))
    return UNIT


@on(r"<alloc::vec::Vec<T.*>>::(extend_from_slice|append)", r"<alloc::string::String>::push_str")
def vec_extend(ip, st, av, c):
    cur = ip.deref(st, av[0])
    o = val(ip, st, av[1])
    ip.store_through(st, av[0], cat(cur, o))
    if strip_generics(c.name).endswith("append") and av[1].op == "ref":
        ip.store_through(st, av[1], EMPTY)
    return UNIT


@on(r"<alloc::vec::Vec<T.*>>::(reserve|reserve_exact|shrink_to_fit|shrink_to)", r"<alloc::string::String>::(reserve|shrink_to_fit)")
def vec_room(ip, st, av, c):
    return UNIT


@on(r"<alloc::vec::Vec<T.*>>::clear", r"<alloc::string::String>::clear")
def vec_clear(ip, st, av, c):
    ip.store_through(st, av[0], EMPTY)
    return UNIT


@on(r"<alloc::vec::Vec<T.*>>::resize")
def vec_resize(ip, st, av, c):
    cur, n, x = ip.deref(st, av[0]), av[1], av[2]
    l = ip.length(cur)
    if l.op == "int" and n.op == "int":
        t = ip.prog.ts(c.atys[2]) if c.atys[2] is not None else ""
        if n.a[0] > l.a[0] + 4096:
            return NotImplemented
        new = cat(cur, agg("array", t, *[x] * (n.a[0] - l.a[0]))) if n.a[0] > l.a[0] else ip.subslice(cur, I(0), n)
    elif l == I(0):
        new = mk("fill", x, n)
    else:
        return NotImplemented
    ip.store_through(st, av[0], new)
    return UNIT


@on(r"<alloc::vec::Vec<T.*>>::truncate")
def vec_truncate(ip, st, av, c):
    cur, n = ip.deref(st, av[0]), av[1]
    out = []
    for b, s in ip.fork(st, lt(n, ip.length(cur), True)):
        if b:
            ip.store_through(s, av[0], ip.subslice(cur, I(0), n))
        out.append((UNIT, s))
    return out


@on(r"<alloc::vec::Vec<T.*>>::(pop|insert|remove|swap_remove|split_off)")
def vec_edit(ip, st, av, c):
    """only on lists whose elements are all known"""
    cur = ip.deref(st, av[0])
    xs, n = elems(cur), strip_generics(c.name).rsplit("::", 1)[-1]
    if xs is None or len(av) > 1 and av[1].op != "int":
        return NotImplemented
    t = cur.a[1] if cur.op == "agg" else "u8"
    i = av[1].a[0] if len(av) > 1 else 0
    if n == "pop":
        if not xs:
            return NONE
        r = some(xs.pop())
    elif n == "insert" and i <= len(xs):
        xs.insert(i, av[2])
        if not cur.a[0] and c.atys[2] is not None:
            t = ip.prog.ts(c.atys[2])
        r = UNIT
    elif n == "remove" and i < len(xs):
        r = xs.pop(i)
    elif n == "split_off" and i <= len(xs):
        r = agg("array", t, *xs[i:]) if xs[i:] else EMPTY
        xs = xs[:i]
    else:
        return NotImplemented
    ip.store_through(st, av[0], agg("array", t, *xs) if xs else EMPTY)
    return r


@on(r".*Extend<.*>>::extend", r"core::iter::traits::collect::Extend::extend")
def extend(ip, st, av, c):
    cur = ip.deref(st, av[0])
    o = val(ip, st, av[1])
    if cur.op == "sym" and cur.a[0] == "btree":
        return UNIT
    if o.op == "iter":
        o = iter_list(o)
    if o.op == "iteradapt":
        rs = collect_adapt(ip, st, o)
        out = []
        for v, s in rs:
            ip.store_through(s, av[0], cat(ip.deref(s, av[0]), v))
            out.append((UNIT, s))
        return out
    ip.store_through(st, av[0], cat(cur, o))
    return UNIT


@on(r"<\[T\]>::(len)", r"<alloc::vec::Vec<T.*>>::len", r"<str>::len", r"<alloc::string::String>::len", r"<.* as core::iter::traits::exact_size::ExactSizeIterator>::len")
def length(ip, st, av, c):
    return ip.length(ip.snap(st, val(ip, st, av[0])))


@on(r"<\[T\]>::is_empty", r"<alloc::vec::Vec<T.*>>::is_empty", r"<str>::is_empty", r"<alloc::string::String>::is_empty")
def is_empty(ip, st, av, c):
    return eq(ip.length(ip.snap(st, val(ip, st, av[0]))), I(0), True)


@on(r"<\[T\]>::concat", r"<\[V\]>::concat", r".*Concat.*::concat", r"<\[T\]>::join")
def concat(ip, st, av, c):
    v = ip.snap(st, val(ip, st, av[0]))
    xs = elems(v)
    return cat(*xs) if xs is not None else mk("concat", v)


@on(r"<\[T\]>::(copy_from_slice|clone_from_slice)")
def copy_from(ip, st, av, c):
    ip.store_through(st, av[0], val(ip, st, av[1]))
    return UNIT


def bounds(i, n):
    """the first index and the end of a range of something with n elements"""
    k = i.a[0].rsplit("::", 1)[-1]
    f = tm.fields(i)
    lo, hi = I(0), n
    if k == "Range":
        lo, hi = f[0], f[1]
    elif k == "RangeFrom":
        lo = f[0]
    elif k == "RangeTo":
        hi = f[0]
    elif k == "RangeInclusive":
        lo, hi = f[0], tm.add(f[1], I(1))
    elif k == "RangeToInclusive":
        hi = tm.add(f[0], I(1))
    return lo, hi


@on(r"<\[T\]>::(first|last|get)", r"<\[T\]>::get")
def sl_get(ip, st, av, c):
    v = val(ip, st, av[0])
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    i = {"first": I(0)}.get(n) or (tm.sub(ip.length(v), I(1)) if n == "last" else av[1])
    i = val(ip, st, i)
    v = ip.snap(st, v)
    if i.op == "agg":
        if "range" not in i.a[0].lower():
            return NotImplemented
        lo, hi = bounds(i, ip.length(v))
        out = []
        for b, s in ip.fork(st, le(hi, ip.length(v), True)):
            for b2, s2 in ip.fork(s, le(lo, hi, True)) if b else [(False, s)]:
                out.append((some(ip.subslice(v, lo, hi)) if b2 else NONE, s2))
        return out
    return [(some(ip.get(v, ("x", i))) if b else NONE, s) for b, s in ip.fork(st, lt(i, ip.length(v), True))]


@on(r"<\[T\]>::split_at")
def split_at(ip, st, av, c):
    v = ip.snap(st, val(ip, st, av[0]))
    return tup(ip.subslice(v, I(0), av[1]), ip.subslice(v, av[1], ip.length(v)))


@on(r"<\[T\]>::(starts_with|ends_with|contains)")
def sl_pred(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    v, x = ip.snap(st, val(ip, st, av[0])), ip.snap(st, val(ip, st, av[1]))
    if n == "contains":
        xs = elems(v)
        if xs is not None and len(xs) <= 16:
            r = FALSE
            for y in xs:
                r = tm.b_or(r, eq(y, x))
            return r
    elif ip.length(x).op == "int":
        # a whole part of known length
        k, ln = ip.length(x), ip.length(v)
        out = []
        for b, s in ip.fork(st, le(k, ln, True)):
            part = ip.subslice(v, I(0), k) if n == "starts_with" else ip.subslice(v, tm.sub(ln, k), ln)
            out.append((eq(part, x) if b else FALSE, s))
        return out
    return mk("pred", n, v, x)


RANGES = ("core::ops::range::Range", "core::range::")


@on(r"<.* as core::ops::index::Index(Mut)?<.*>>::index(_mut)?", r"core::ops::index::Index(Mut)?::index(_mut)?")
def index(ip, st, av, c):
    if own(ip, c.r):
        return NotImplemented
    mutable = "index_mut" in c.name or "IndexMut" in c.d
    i = val(ip, st, av[1])
    base = val(ip, st, av[0])
    if base.op not in ("agg", "bytes", "ref", "cat", "slice") and base not in ip.lens:
        k = argty(c, 0).get("n") if argty(c, 0).get("k") == "array" else None
        if isinstance(k, int):
            ip.lens[base] = k
    n = ip.length(ip.snap(st, base))
    if i.op == "agg" and "range" in i.a[0].lower():
        lo, hi = bounds(i, n)
        if not (lo == I(0) and hi is n):
            ip.assume(st, le(hi, n, True))
            ip.assume(st, le(lo, hi, True))
        if mutable and av[0].op == "ref":
            if lo == I(0) and hi is n:
                return av[0]
            return mk("ref", av[0].a[0], av[0].a[1] + (("s", lo, hi),))
        return ip.subslice(ip.snap(st, base), lo, hi)
    if i.op == "agg":
        return base if not mutable else av[0]
    if not ip.assume(st, lt(i, n, True)):
        return []
    if mutable and av[0].op == "ref":
        return mk("ref", av[0].a[0], av[0].a[1] + (("x", i),))
    return ip.get(base, ("x", i))


@on(r"<core::num::nonzero::NonZero<.*>>::(new|get|new_unchecked)", r"core::num::nonzero::NonZero::(new|get|new_unchecked)")
def nonzero(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    if n != "new":
        return av[0]
    return [(NONE if b else some(av[0]), s) for b, s in ip.fork(st, eq(av[0], I(0), True))]


# ----------------------------------------------------------------- iterators
@on(r"<\[T\]>::(iter|iter_mut)", r".* as core::iter::traits::collect::IntoIterator>::into_iter", r"core::iter::traits::collect::IntoIterator::into_iter",
    r"<alloc::vec::Vec<T.*>>::(drain|into_iter)")
def into_iter(ip, st, av, c):
    if own(ip, c.r):
        return NotImplemented
    v = av[0]
    if v.op == "ref" and ("iter_mut" in c.name):
        inner = ip.deref(st, v)
        xs = elems(inner)
        if xs is None:
            ip.store_through(st, v, ip.havoc("elements"))
            return mk("itermut", v, ip.havoc("pos"))
        return mk("iter", agg("array", "refs", *[mk("ref", v.a[0], v.a[1] + (("x", I(i)),)) for i in range(len(xs))]), I(0))
    v = val(ip, st, v)
    if v.op in ("iter", "iteradapt"):
        return v
    if v.op == "agg" and v.a[0].rsplit("::", 1)[-1] == "Range":
        return v
    if v.op == "agg" and v.a[0] == OPTION:
        return mk("iter", agg("array", "", *tm.fields(v)), I(0))
    return mk("iter", v, I(0))


@on(r"core::iter::sources::(once::once|empty::empty)", r"core::iter::(once|empty)", r"<core::option::Option<T>>::iter")
def iter_once(ip, st, av, c):
    if not av:
        return mk("iter", EMPTY, I(0))
    if strip_generics(c.name).endswith("iter"):
        v = val(ip, st, av[0])
        return [(mk("iter", agg("array", "", *([tm.vproj(v, "Some", "0")] if b else [])), I(0)), s)
                for b, s in ip.fork(st, tm.isv(v, OPTION, "Some"))]
    return mk("iter", agg("array", "", av[0]), I(0))


def iter_list(it):
    v, pos = it.a[0], it.a[1]
    xs = elems(v)
    if xs is not None and pos.op == "int":
        return agg("array", v.a[1] if v.op == "agg" else "u8", *xs[pos.a[0]:])
    return v if pos == I(0) else mk("rest", v, pos)


@on(r".* as core::iter::traits::iterator::Iterator>::(map|filter|enumerate|zip|rev|skip|take|copied|cloned|chain|filter_map|peekable|flat_map|flatten|inspect|by_ref|fuse|take_while|skip_while|step_by|map_while)",
    r"core::iter::traits::iterator::Iterator::(map|filter|enumerate|zip|rev|skip|take|copied|cloned|chain|filter_map|peekable|flat_map|flatten|inspect|by_ref|fuse|take_while|skip_while|step_by|map_while)")
def adapt(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    if n in ("copied", "cloned", "peekable", "by_ref", "fuse"):
        return av[0]
    if n in ("chain", "zip") and av[1].op not in ("iter", "iteradapt"):
        av = [av[0], mk("iter", val(ip, st, av[1]), I(0))]
    return mk("iteradapt", n, *av)


def items_of(ip, st, it):
    """[(list of item values | None, state)]"""
    if it.op == "ref":
        it = val(ip, st, it)
    if it.op == "iter":
        xs = elems(it.a[0])
        if xs is None:
            n = ip.length(it.a[0])
            if n.op == "int" and n.a[0] <= 16:
                xs = [ip.get(it.a[0], ("x", I(i))) for i in range(n.a[0])]
        if xs is None or it.a[1].op != "int":
            return [(None, st)]
        return [(xs[it.a[1].a[0]:], st)]
    if it.op == "agg" and it.a[0].rsplit("::", 1)[-1] == "Range" and all(x.op == "int" for x in tm.fields(it)):
        lo, hi = [x.a[0] for x in tm.fields(it)][:2]
        return [([I(i) for i in range(lo, min(hi, lo + 300))], st)]
    if it.op == "iteradapt":
        k = it.a[0]
        out = []
        for xs, s in items_of(ip, st, it.a[1]):
            if xs is None:
                out.append((None, s))
            elif k == "enumerate":
                out.append(([tup(I(i), x) for i, x in enumerate(xs)], s))
            elif k == "rev":
                out.append((xs[::-1], s))
            elif k == "skip" and it.a[2].op == "int":
                out.append((xs[it.a[2].a[0]:], s))
            elif k == "take" and it.a[2].op == "int":
                out.append((xs[:it.a[2].a[0]], s))
            elif k == "step_by" and it.a[2].op == "int" and it.a[2].a[0] > 0:
                out.append((xs[::it.a[2].a[0]], s))
            elif k == "inspect":
                cur = [s]
                for x in xs:
                    cur = [s3 for s2 in cur for _, s3 in ip.call_value(s2, it.a[2], [x], [None], None)]
                out += [(xs, s2) for s2 in cur]
            elif k in ("flatten", "flat_map"):
                cur = [([], s)]
                for x in xs:
                    nxt = []
                    for acc, s2 in cur:
                        for v, s3 in ip.call_value(s2, it.a[2], [x], [None], None) if k == "flat_map" else [(x, s2)]:
                            v = val(ip, s3, v)
                            if acc is None:
                                nxt.append((None, s3))
                                continue
                            if v.op not in ("iter", "iteradapt"):
                                if v.op == "agg" and v.a[0] in (OPTION, RESULT):
                                    v = agg("array", "", *(tm.fields(v) if v.a[1] in ("Some", "Ok") else ()))
                                v = mk("iter", v, I(0))
                            for ys, s4 in items_of(ip, s3, v):
                                nxt.append((None if ys is None else acc + ys, s4))
                    cur = nxt
                out += cur
            elif k in ("take_while", "skip_while"):
                cur = [([], s, False)]
                for x in xs:
                    nxt = []
                    for acc, s2, done in cur:
                        if done:
                            nxt.append((acc if k == "take_while" else acc + [x], s2, True))
                            continue
                        for v, s3 in ip.call_value(s2, it.a[2], [x], [None], None):
                            for b, s4 in ip.fork(s3, v):
                                if k == "take_while":
                                    nxt.append((acc + [x], s4, False) if b else (acc, s4, True))
                                else:
                                    nxt.append((acc, s4, False) if b else (acc + [x], s4, True))
                    cur = nxt
                out += [(a, s2) for a, s2, _ in cur]
            elif k in ("chain", "zip"):
                for ys, s2 in items_of(ip, s, it.a[2]):
                    if ys is None:
                        out.append((None, s2))
                    else:
                        out.append((xs + ys if k == "chain" else [tup(x, y) for x, y in zip(xs, ys)], s2))
            elif k in ("map", "filter", "filter_map"):
                cur = [([], s)]
                for x in xs:
                    nxt = []
                    for acc, s2 in cur:
                        for v, s3 in ip.call_value(s2, it.a[2], [x], [None], None):
                            if k == "map":
                                nxt.append((acc + [v], s3))
                            elif k == "filter":
                                if len(nxt) > 512:
                                    return [(None, st)]
                                for b, s4 in ip.fork(s3, v):
                                    nxt.append((acc + [x] if b else acc, s4))
                            else:
                                for b, s4 in ip.fork(s3, tm.isv(v, OPTION, "Some")):
                                    nxt.append((acc + [tm.vproj(v, "Some", "0")] if b else acc, s4))
                    cur = nxt
                out += cur
            else:
                out.append((None, s))
        return out
    return [(None, st)]


def collect_adapt(ip, st, it):
    out = []
    for xs, s in items_of(ip, st, it):
        out.append((agg("array", "", *xs) if xs is not None else mk("collected", ip.snap(s, it)), s))
    return out


def counted(ip, st, it):
    """how many of a known number of elements a test without branches picks: [(number, state)], or None"""
    if it.op == "ref":
        it = val(ip, st, it)
    if it.op != "iteradapt" or it.a[0] != "filter":
        return None
    got = items_of(ip, st.copy(), it.a[1])
    if len(got) != 1 or got[0][0] is None or len(got[0][0]) > 256:
        return None
    xs, s = got[0]
    conds = []
    for x in xs:
        rs = ip.call_value(s.copy(), it.a[2], [x], [None], None)
        if not 1 <= len(rs) <= 4 or any(s2.eff != s.eff for _, s2 in rs):
            return None
        c = FALSE
        for v, s2 in rs:
            for f, b in s2.facts.items():
                if len(rs) > 1 and s.facts.get(f) is not b and v != FALSE:
                    v = tm.b_and(f if b else tm.b_not(f), v)
            c = tm.b_or(c, v)
        conds.append(c)
    return [(tm.tally(conds), s)]


def generic_item(ip, st, it):
    """an arbitrary element of an iterator of unknown length: [(item, state)]"""
    if it.op == "ref":
        it = val(ip, st, it)
    if it.op == "iter":
        xs = elems(it.a[0])
        ip.nhavoc += 1
        return [(ip.get(it.a[0], ("x", mk("anyidx", ip.nhavoc))), st)]
    if it.op == "iteradapt":
        k = it.a[0]
        out = []
        for x, s in generic_item(ip, st, it.a[1]):
            if k == "map":
                out += ip.call_value(s, it.a[2], [x], [None], None)
            elif k == "filter":
                for v, s2 in ip.call_value(s, it.a[2], [x], [None], None):
                    if ip.assume(s2, v):
                        out.append((x, s2))
            elif k == "enumerate":
                out.append((tup(ip.havoc("idx"), x), s))
            elif k in ("rev", "skip", "take"):
                out.append((x, s))
            else:
                out.append((ip.havoc("item"), s))
        return out
    return [(ip.havoc("item"), st)]


def bytewise(ip, st, it, f, n):
    """two sequences of the same length compared element by element: their equality"""
    if it.op == "ref":
        it = val(ip, st, it)
    if it.op != "iteradapt" or it.a[0] != "zip" or any(x.op != "iter" or x.a[1] != I(0) for x in it.a[1:3]):
        return None
    x, y = it.a[1].a[0], it.a[2].a[0]
    if ip.decide(st, tm.eq(ip.length(x), ip.length(y), True)) is not True:
        return None
    ip.nhavoc += 1
    i = mk("anyidx", ip.nhavoc)
    xi, yi = ip.get(x, ("x", i)), ip.get(y, ("x", i))
    got = ip.call_value(st, f, [tup(xi, yi)], [None], None)
    if len(got) != 1:
        return None
    v = got[0][0]
    for w in (tm.eq(xi, yi), tm.eq(xi, yi, True)):
        if n == "all" and v is w:
            return tm.eq(x, y)
        if n == "any" and v is tm.b_not(w):
            return tm.b_not(tm.eq(x, y))
    return None


@on(r".* as core::iter::traits::iterator::Iterator>::(collect|sum|for_each|any|all|count|fold|next|find|position|max|min|product|try_for_each|try_fold|find_map|last|nth|reduce)",
    r"core::iter::traits::iterator::Iterator::(collect|sum|for_each|any|all|count|fold|next|find|position|max|min|product|try_for_each|try_fold|find_map|last|nth|reduce)")
def consume(ip, st, av, c):
    n = strip_generics(c.name).rsplit("::", 1)[-1]
    if own(ip, c.r):
        return NotImplemented
    it = av[0]
    if n == "next":
        return it_next(ip, st, it)
    if n == "count":
        r = counted(ip, st, it)
        if r is not None:
            return r
    out = []
    rt = ip.prog.tk(c.rty)
    for xs, s in items_of(ip, st, it):
        if xs is None:
            src = ip.snap(s, val(ip, s, it))
            if n == "for_each":
                iv = val(ip, s, it)
                if iv.op == "itermut":      # the elements may be changed arbitrarily
                    ip.store_through(s, iv.a[0], ip.havoc("elements"))
                for x, s2 in generic_item(ip, s.copy(), it):
                    for _, s3 in ip.call_value(s2, av[1], [x], [None], None):
                        out.append((UNIT, s3))
                out.append((UNIT, s))
                continue
            if n in ("any", "all"):
                w = bytewise(ip, s.copy(), it, av[1], n)
                if w is not None:
                    out.append((w, s))
                    continue
                got = []
                for x, s2 in generic_item(ip, s.copy(), it):
                    for v, s3 in ip.call_value(s2, av[1], [x], [None], None):
                        got.append(v)
                out.append((mk("quant", n, src, *got), s))
                continue
            if n == "sum" or n == "fold":
                got = []
                for x, s2 in generic_item(ip, s.copy(), it):
                    got.append(ip.snap(s2, x))
                out.append((mk("summed", src, *got, *av[1:2]), s))
                continue
            if n == "collect":
                got = []
                for x, s2 in generic_item(ip, s.copy(), it):
                    got.append(ip.snap(s2, x))
                out.append((mk("collected", src, *got), s))
                continue
            out.append((mk("call", n, src, *[ip.snap(s, a) for a in av[1:]]), s))
            continue
        if n == "collect":
            if rt.get("d") == RESULT or rt.get("d") == OPTION:
                vs, bad = [], False
                cur = [([], s)]
                adt, good = (RESULT, "Ok") if rt["d"] == RESULT else (OPTION, "Some")
                res = []
                for x in xs:
                    nxt = []
                    for acc, s2 in cur:
                        for b, s3 in ip.fork(s2, tm.isv(x, adt, good)):
                            if b:
                                nxt.append((acc + [tm.vproj(x, good, "0")], s3))
                            else:
                                res.append((err(tm.sym("anyerr")) if adt == RESULT else NONE, s3))
                    cur = nxt
                out += [(ok(agg("array", "", *a)) if adt == RESULT else some(agg("array", "", *a)), s2) for a, s2 in cur] + res
            else:
                out.append((agg("array", "", *xs), s))
        elif n in ("sum", "product"):
            r = I(0 if n == "sum" else 1)
            if n == "sum" and len(xs) == 128:
                xs = [tm.as_bit(x) for x in xs]
            for x in xs:
                r = (tm.add if n == "sum" else tm.mul)(r, x)
            out.append((r, s))
        elif n == "count":
            out.append((I(len(xs)), s))
        elif n == "last":
            out.append((some(xs[-1]) if xs else NONE, s))
        elif n == "nth" and av[1].op == "int":
            out.append((some(xs[av[1].a[0]]) if av[1].a[0] < len(xs) else NONE, s))
        elif n in ("min", "max") and rt.get("a") and ip.prog.int_ty(deref_ty(ip.prog, rt["a"][0])):
            u = not ip.prog.int_ty(deref_ty(ip.prog, rt["a"][0]))[1]
            cur = [(xs[0], s)] if xs else []
            if not xs:
                out.append((NONE, s))
            for x in xs[1:]:
                nxt = []
                for acc, s2 in cur:
                    a, b = val(ip, s2, acc), val(ip, s2, x)
                    nxt += pick(ip, s2, le(a, b, u), acc, x) if n == "min" else pick(ip, s2, le(a, b, u), x, acc)
                cur = nxt
            out += [(some(v), s2) for v, s2 in cur]
        elif n == "reduce":
            cur = [(xs[0], s)] if xs else []
            if not xs:
                out.append((NONE, s))
            for x in xs[1:]:
                cur = [(v, s3) for acc, s2 in cur for v, s3 in ip.call_value(s2, av[1], [acc, x], [None] * 2, None)]
            out += [(some(v), s2) for v, s2 in cur]
        elif n in ("for_each", "fold", "try_for_each", "try_fold"):
            fold = n.endswith("fold")
            fv = av[2] if fold else av[1]
            tryy = n.startswith("try")
            cur = [(av[1] if fold else UNIT, s)]
            for x in xs:
                nxt = []
                for acc, s2 in cur:
                    for v, s3 in ip.call_value(s2, fv, [acc, x] if fold else [x], [None] * 2, None):
                        if tryy:
                            for b, s4 in ip.fork(s3, tm.isv(v, RESULT, "Ok")):
                                if b:
                                    nxt.append((tm.vproj(v, "Ok", "0"), s4))
                                else:
                                    out.append((v, s4))
                        else:
                            nxt.append((v, s3))
                cur = nxt
            out += [(ok(v) if tryy else (v if fold else UNIT), s2) for v, s2 in cur]
        elif n in ("any", "all", "find", "position", "find_map"):
            cur = [s]
            for i, x in enumerate(xs):
                nxt = []
                for s2 in cur:
                    for v, s3 in ip.call_value(s2, av[1], [x], [None], None):
                        cond = tm.isv(v, OPTION, "Some") if n == "find_map" else v
                        for b, s4 in ip.fork(s3, cond):
                            if n == "any" and b:
                                out.append((TRUE, s4))
                            elif n == "all" and not b:
                                out.append((FALSE, s4))
                            elif n == "find" and b:
                                out.append((some(x), s4))
                            elif n == "position" and b:
                                out.append((some(I(i)), s4))
                            elif n == "find_map" and b:
                                out.append((v, s4))
                            else:
                                nxt.append(s4)
                cur = nxt
            fin = {"any": FALSE, "all": TRUE}.get(n, NONE)
            out += [(fin, s2) for s2 in cur]
        else:
            out.append((mk("call", n, agg("array", "", *xs), *[ip.snap(s, a) for a in av[1:]]), s))
    return out


def deref_ty(p, t):
    while p.tk(t).get("k") == "ref":
        t = p.tk(t)["t"]
    return t


def it_next(ip, st, r):
    it = ip.deref(st, r)
    if it.op == "agg" and it.a[0].rsplit("::", 1)[-1] == "Range":
        lo, hi = tm.fields(it)[:2]
        out = []
        for b, s in ip.fork(st, lt(lo, hi)):
            if b:
                ip.store_through(s, r, agg(it.a[0], it.a[1], tm.add(lo, I(1)), hi))
            out.append((some(lo) if b else NONE, s))
        return out
    if it.op == "iter":
        src, pos = it.a[0], it.a[1]
        xs = elems(src)
        if xs is not None and pos.op == "int":
            if pos.a[0] >= len(xs):
                return NONE
            ip.store_through(st, r, mk("iter", src, tm.add(pos, I(1))))
            return some(xs[pos.a[0]])
        out = []
        for b, s in ip.fork(st, lt(pos, ip.length(src), True)):
            if b:
                ip.store_through(s, r, mk("iter", src, tm.add(pos, I(1))))
            out.append((some(ip.get(src, ("x", pos))) if b else NONE, s))
        return out
    if it.op == "iteradapt":
        rs = items_of(ip, st, it)
        if all(xs is not None for xs, _ in rs):
            out = []
            for xs, s in rs:
                ip.store_through(s, r, mk("iter", agg("array", "", *xs), I(1)))
                out.append((some(xs[0]) if xs else NONE, s))
            return out
    ip.nhavoc += 1
    x = mk("isnext", ip.nhavoc)
    out = []
    for b, s in ip.fork(st, mk("more", it, I(ip.nhavoc))):
        if not b:
            out.append((NONE, s))
            continue
        for v, s2 in generic_item(ip, s, it):
            out.append((some(v), s2))
    return out


# --------------------------------------------------------------- readers, writers
@on(r".*::io::(write::)?Write>?::(write_all|write)")
def write_all(ip, st, av, c):
    r = av[0]
    cur = ip.deref(st, r)
    if cur.op == "ref":
        r, cur = cur, ip.deref(st, cur)
    x = ip.snap(st, val(ip, st, av[1]))
    ip.store_through(st, r, cat(cur, x))
    return ok(UNIT)


@on(r".*::io::(write::)?Write>?::flush")
def flush(ip, st, av, c):
    return ok(UNIT)


def rd_take(ip, st, r, n):
    """n bytes off the front of reader r (a `&mut &[u8]` or a reader over one): (value, surely enough)"""
    cur = ip.deref(st, r)
    if cur.op == "ref":
        r, cur = cur, ip.deref(st, cur)
    cur = ip.snap(st, cur)
    parts = list(cur.a) if cur.op == "cat" else [cur]
    got, need, sure = [], n, True
    while need is not I(0):
        if not parts:
            return None, False               # certainly too short
        x = parts.pop(0)
        L = ip.length(x)
        if L is need:
            got.append(x)
            need = I(0)
        elif L.op == need.op == "int" and L.a[0] < need.a[0]:
            got.append(x)
            need = I(need.a[0] - L.a[0])
        else:
            if not (L.op == need.op == "int"):
                sure = ip.decide(st, le(need, L, True)) is True
                if got and not sure:
                    return mk("taken", cur, n), None
            got.append(ip.subslice(x, I(0), need))
            parts.insert(0, ip.subslice(x, need, L))
            need = I(0)
    ip.store_through(st, r, cat(*parts))
    return cat(*got), sure


@on(r".*::io::(read::)?Read>?::read_exact")
def read_exact(ip, st, av, c):
    buf = val(ip, st, av[1])
    n = ip.length(buf)
    e = st.copy()
    x, sure = rd_take(ip, st, av[0], n)
    if x is None:
        return err(tm.sym("anyerr"))
    if sure is None:
        return NotImplemented
    ip.store_through(st, av[1], x)
    return [(ok(UNIT), st)] + ([] if sure else [(err(tm.sym("anyerr")), e)])


@on(r".*::io::(read::)?Read>?::read_to_end")
def read_to_end(ip, st, av, c):
    r, cur = av[0], ip.deref(st, av[0])
    if cur.op == "ref":
        r, cur = cur, ip.deref(st, cur)
    ip.store_through(st, r, X(b""))
    ip.store_through(st, av[1], cat(ip.deref(st, av[1]), cur))
    return ok(ip.length(cur))


@on(r"alloc::vec::from_elem")
def from_elem(ip, st, av, c):
    v, n = av
    if n.op == "int" and n.a[0] <= 4096:
        return agg("array", ip.prog.ts(c.targs[0]) if c.targs else "", *[v] * n.a[0]) if n.a[0] else X(b"")
    return mk("fill", v, n)


@on(r".*BpfLoaderUpgradeable as anchor_lang::Id>::id")
def loader_id(ip, st, av, c):
    n = 0
    for ch in "BPFLoaderUpgradeab1e11111111111111111111111":
        n = n * 58 + "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".index(ch)
    return X(n.to_bytes(32, "big"))
