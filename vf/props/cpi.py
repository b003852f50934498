"""Calls to other programs under the authority's signature, and the creator's vesting escrow."""
from . import prop
from .common import *
from .launch import named, always, who, ctx, is_none_opt

AMM1 = "Eo7WjKq67rjJQSZxS6z3YkapzY3eMj6Xy8X5EQVn5UaB"
AMM2 = "cpamdpZCGKUy5JxQXB4dcpGPiikHawvSWAd6mEn1sGG"
STATIC_IDS = ("locker::locker::ID", "damm_v2::damm_v2::ID", "dynamic_amm::dynamic_amm::ID")
LOCKER = "LocpQgucEQHbqNABEYvBvwoxCPsSbG91A1QaQhQQqjn"
METADATA = "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"
SEED = bytesarr(b"pool_authority")
TOKEN_CRATES = ("spl_token::", "spl_token_2022::", "spl_token_interface::", "spl_token_2022_interface::")
U64MAX = (1 << 64) - 1


def lends(seeds):
    """may the signer seeds include the pool authority's?"""
    if seeds.op == "arr":
        return bool(seeds.a) and (is_authority_seed(seeds.a[0]) or any(lends(x) for x in seeds.a))
    if seeds.op == "ite":
        return lends(seeds.a[1]) or lends(seeds.a[2])
    if seeds.op == "adt":
        return any(lends(x) for _, x in seeds.a[3])
    return False


def is_authority_seed(t):
    while t.op in ("deref", "as_ref", "slice") and t.a:
        t = t.a[0]
    return t is SEED


def included(call, c, memo):
    """the condition under which a version of the on-chain state comes after the call"""
    if c not in memo:
        if c.op == "chain":
            r = TRUE if c.a[1] is call else included(call, c.a[0], memo)
        elif c.op == "ite":
            r = ite(c.a[0], included(call, c.a[1], memo), included(call, c.a[2], memo))
        else:
            r = FALSE
        memo[c] = r
    return memo[c]


def versions(e, op, accts):
    """(term, certain calls, possible calls) for each version of a property of the authority's account read by the entry"""
    out = {}
    for t in subterms(e.ok):
        if t.op == op and t.a[0] in accts:
            out[t] = t.a[1] if len(t.a) > 1 else B.CHAIN0
    return out


def guarded(e, call, pc, accts):
    """which of (SOL, owner, size) are not known to survive the call"""
    bad, memo = [], {}
    for op, name in (("lamports", "SOL"), ("owner", "owner"), ("datalen", "size")):
        vs = versions(e, op, accts)
        has = {t: included(call, ch, memo) for t, ch in vs.items()}
        before = [t for t, h in has.items() if e.implied(b_not(h), pc)]
        after = [t for t, h in has.items() if e.implied(h, pc)]
        if op != "lamports":
            for a in accts:
                before.append(mk(op, a))
        good = False
        for b in dict.fromkeys(before):
            for a in after:
                if a.a[0] is not b.a[0]:
                    continue
                keep = b_not(lt(a, b)) if op == "lamports" else eq(a, b)
                if e.implied(keep, pc):
                    good = True
        if not good:
            bad.append(name)
    return bad


def token_typed(e, t):
    """the account is typed as a token program"""
    if t.op != "acct":
        return False
    ty = (e.accts.get(t.a[0]) or e.extra.get(t.a[0]) or "").replace(" ", "")
    return ("Program<" in ty or "Interface<" in ty) and any(x in ty for x in ("token::Token", "Token2022", "TokenInterface"))


def typed(e, t, *names):
    ty = (e.accts.get(t.a[0]) or "").replace(" ", "") if t.op == "acct" else ""
    return "Program<" in ty and any(n in ty for n in names)


@prop("C22", floor=60)
def c22(C):
    C.each(C.ixs(), lending)


def lending(C, ix):
    e = C.entry(ix)
    w = e.where()
    AUTH = [mk("acct", n) for n in e.accts if e.implied(eq(e.key_of(n), pool_auth()))]
    n = 0
    for ev in e.events:
        live = b_and(ev.pc, e.ok)
        if live is FALSE or ev.name == "emit":
            continue
        c = ctx(ev)
        short_ = ev.name.split("::")[-1]
        seeds = c[2] if c else (ev.vals[-1] if len(ev.vals) > 1 else UNIT)
        builder = "CpiBuilder" in ev.name
        if not (c or is_cpi(ev) or builder):
            if any(lends(v) for v in ev.vals):
                C.ob(False, w, "the authority's signature is lent only in calls to known programs", "through `%s`" % ev.name)
            continue
        if not lends(seeds):
            # a plain call under the authority's account cannot carry its signature: nothing to check
            C.ob(not any(lends(v) for v in ev.vals), w, "the authority's signature is lent only in calls to known programs")
            continue
        n += 1
        what = lambda ev=ev: "call `%s`" % ev.name
        if is_cpi(ev):
            ls = instr_leaves(ev.vals[0])
            good = bool(ls) and all(l.op == "call" and l.a[0].startswith(TOKEN_CRATES) or is_spl(l) or zap_fixed(e, l) for l in ls)
            C.ob(good, w, "the authority's signature is lent only to token, metadata, pool and locker programs", what)
            continue
        if builder:
            b = root_of(ev.vals[0])
            C.ob(b is not None and e.implied(eq(mk("key", b), pubkey(METADATA))), w, "the authority's signature is lent only to token, metadata, pool and locker programs", what)
            bad = guarded(e, ev.ret, ev.pc, AUTH)
            C.ob(not bad, w, "a lent signature cannot take SOL, ownership or data from the authority", lambda: "call `%s` may change %s" % (ev.name, ", ".join(bad)))
            continue
        prog = c[1]
        if token_typed(e, prog):
            C.ob(True, w, "the authority's signature is lent only to token, metadata, pool and locker programs")
            continue
        k = mk("key", prog)
        fixed = [p for p in (AMM1, AMM2, LOCKER) if e.implied(eq(k, pubkey(p)))]
        statics = [t for t in e.equals(k) if t.op == "static" and str(t.a[0]) in STATIC_IDS]
        C.ob(bool(fixed or statics), w, "the authority's signature is lent only to token, metadata, pool and locker programs", what)
        bad = guarded(e, ev.ret, ev.pc, AUTH)
        C.ob(not bad, w, "a lent signature cannot take SOL, ownership or data from the authority", lambda: "call `%s` may change %s" % (ev.name, ", ".join(bad)))
    C.ob(True, w, "every call of the instruction was examined")
    # the authority's own SOL is never moved directly
    for op, a, amt, pc in lamport_moves(e):
        C.ob(b_and(pc, e.ok) is FALSE or op == "add" or e.implied(b_not(eq(mk("key", a), pool_auth())), pc) or a not in AUTH, w,
             "no SOL is taken from the authority directly")


def root_of(t):
    """the program account a CPI builder was made for"""
    while t.op in ("out", "call"):
        c = t.a[0] if t.op == "out" else t
        if c.op != "call" or len(c.a) < 2 or not isinstance(c.a[1], T):
            return None
        t = c.a[1]
    return t if t.op == "acct" else None


def is_spl(l):
    return l.op == "call" and "token" in str(l.a[0]).split("::")[0] and "instruction::" in str(l.a[0])


def zap_fixed(e, l):
    return False


@prop("C30", floor=20)
def c30(C):
    e = C.entry("create_locker")
    w = e.where()
    V, P, K = lambda f: e.pre("virtual_pool", f), lambda f: e.pre("config", f), e.key_of
    C.ob(e.implied(eq(V("migration_progress"), I(1))), w, "tokens are locked only once the curve is complete")
    C.ob(e.same(e.post("virtual_pool", "migration_progress"), I(2)), w, "locking is recorded, so it happens once")
    C.ob(e.implied(eq(K("config"), V("config"))), w, "the config is the pool's")
    ls = [x for x in named(e, *[ev.name.split("::")[-1] for ev in e.events if ev.name.startswith("locker::")])]
    C.ob(len(ls) == 1 and ls[0][0] == "create_vesting_escrow_v2" and always(e, ls[0][1]), w, "exactly one vesting escrow is created",
         lambda: str([x[0] for x in ls]))
    for n, ev, acc, prog, seeds, args in ls:
        need = {"sender": pool_auth(), "sender_token": V("base_vault"), "recipient": V("creator"), "token_mint": V("base_mint"),
                "base": None, "escrow": K("escrow"), "escrow_token": K("escrow_token")}
        for r, k in need.items():
            if k is None:
                continue
            C.ob(e.implied(eq(mk("key", fld(acc, r)), k)), w, "the tokens come from the pool's vault and go to its creator", d("role", mk("sym", r), "account", fld(acc, r)))
        base = mk("key", fld(acc, "base"))
        pdas = [t for t in e.equals(base) if t.op == "pda"]
        C.ob(any(t.a[0].op == "arr" and len(t.a[0].a) == 2 and t.a[0].a[0] is bytesarr(b"base_locker") and
                 any(K("virtual_pool") is s or s is fld(K("virtual_pool"), "0") for s in subterms(t.a[0].a[1])) for t in pdas), w,
             "each pool has its own escrow", lambda: show(pdas[0], 9) if pdas else "no fixed address")
        C.ob(len(args) == 2 and is_none_opt(args[1]), w, "no further terms are given")
        start = V("finish_curve_timestamp")
        L = lambda f: P("locked_vesting_config." + f)
        cliff = mk_add(start, L("cliff_duration_from_migration_time"))
        fits = atom_bool(mk("fits", cliff, "u64"))
        want = {"vesting_start_time": start, "frequency": L("frequency"), "cliff_unlock_amount": L("cliff_unlock_amount"),
                "amount_per_period": L("amount_per_period"), "number_of_period": L("number_of_period"),
                "update_recipient_mode": I(2), "cancel_mode": I(1)}
        for f, v in want.items():
            C.ob(e.same(fld(args[0], f), v), w, "the escrow follows the configured vesting terms from the moment the curve was completed",
                 d("field", mk("sym", f), "got", fld(args[0], f), "expected", v))
        got = fld(args[0], "cliff_time")
        C.ob(e.same(got, ite(fits, cliff, I(U64MAX))) , w, "the cliff ends the configured time after the curve was completed", d("got", got))
        fields = {f for f, _ in args[0].a[3]} if args[0].op == "adt" else set()
        C.ob(fields == set(want) | {"cliff_time"}, w, "no further terms are given", lambda: str(sorted(fields)))
    C.ob(not e.transfers, w, "no tokens leave a vault by other means")
    raw = [ev for ev in e.events if ctx(ev) and b_and(ev.pc, e.ok) is not FALSE and not ev.name.startswith("locker::")
           and not ev.name.split("::")[-2:-1] == ["system_program"]]
    C.ob(not raw, w, "no tokens leave a vault by other means", lambda: str([x.name for x in raw]))
