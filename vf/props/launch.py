"""Pool creation: what a new pool and its token start from."""
from . import prop
from .common import *
from .swapmath import okv
from .config import locked_after, powfee, VEST

INITS = ["initialize_virtual_pool_with_spl_token", "initialize_virtual_pool_with_token2022"]
LDP = CRATE + "::params::liquidity_distribution::LiquidityDistributionParameters"
POINTS = 20


def somev(t):
    return adt("core::option::Option<solana_pubkey::Pubkey>", "Some", 1, (("0", t),))


def authority_options(e):
    """(who may update the token's metadata, who may mint) as (is some, key)"""
    o = e.pre("config", "token_update_authority")
    cr, pa = e.key_of("creator"), e.pre("config", "fee_claimer")
    is_ = lambda k: eq(o, I(k))
    who = ite(b_or(is_(0), is_(3)), cr, pa)
    return (b_not(is_(1)), who), (b_or(is_(3), is_(4)), who)


def opt_is(e, got, want, under=TRUE):
    """an Option<Pubkey> term is some exactly when and with what is wanted"""
    some, key = want
    g = b_not(B.is_none(got))
    return e.implied(b_or(b_and(g, some), b_and(b_not(g), b_not(some))), under) and \
        e.same(fld(as_var(got, "Some", 1), "0"), key, b_and(under, some))


def ctx(ev):
    """a CPI given as an Anchor context -> (accounts by role, program, seeds, arguments)"""
    for l in leaves(ev.vals[0]) if ev.vals else []:
        if l.op == "adt" and l.a[0].split("<")[0].endswith("CpiContext"):
            acc = fld(l, "accounts")
            return acc, fld(l, "program"), fld(l, "signer_seeds"), list(ev.vals[1:])
    return None


def named(e, *suffixes):
    out = []
    for ev in e.events:
        n = ev.name.split("::")[-1]
        if n in suffixes and b_and(ev.pc, e.ok) is not FALSE:
            c = ctx(ev)
            if c:
                out.append((n, ev) + c)
    return out


def always(e, ev):
    return e.implied(ev.pc)


def who(acc, *roles):
    """(role -> account) of a CPI's accounts struct"""
    return [fld(acc, r) for r in roles]


def initial_supply(e):
    P = lambda f: e.pre("config", f)
    cv = P("curve")
    pt = [adt(LDP, "LiquidityDistributionParameters", 0, (("sqrt_price", fld(sel(cv, I(i)), "sqrt_price")), ("liquidity", fld(sel(cv, I(i)), "liquidity"))))
          for i in range(POINTS)]
    t = mk("arr", *pt)
    for i in reversed(range(POINTS)):
        t = ite(eq(fld(sel(cv, I(i)), "liquidity"), I(0)), mk("arr", *pt[:i]), t)
    buf = okv(CRATE + "::state::config::PoolConfig::get_swap_amount_with_buffer", P("swap_base_amount"), P("sqrt_start_price"), t)
    L = lambda f: P("locked_vesting_config." + f)
    tot = mk_add(mk_add(buf, P("migration_base_threshold")), mk_add(L("cliff_unlock_amount"), mk_mul(L("amount_per_period"), L("number_of_period"))))
    return ite(eq(P("fixed_token_supply_flag"), I(1)), P("pre_migration_token_supply"), tot)


@prop("C19", floor=60)
def c19(C):
    C.each(INITS, launched)


def launched(C, ix):
    e = C.entry(ix)
    w = e.where()
    new = ix.endswith("2022")
    P = lambda f: e.pre("config", f)
    K = e.key_of
    supply = initial_supply(e)
    # --- pool state
    act = ite(eq(P("activation_type"), I(0)), mk("fld", mk("sysvar", "Clock"), "slot"),
              mk("cast", mk("fld", mk("sysvar", "Clock"), "unix_timestamp"), "i64", "u64"))
    want = {"config": K("config"), "creator": K("creator"), "base_mint": K("base_mint"), "base_vault": K("base_vault"),
            "quote_vault": K("quote_vault"), "sqrt_price": P("sqrt_start_price"), "pool_type": I(1 if new else 0),
            "activation_point": act, "base_reserve": supply, "protocol_liquidity_migration_fee_bps": I(20)}
    for f, v in want.items():
        C.ob(e.same(e.post("pool", f), v), w, "a new pool starts from its config, its accounts and the full base supply",
             d("field", mk("sym", f), "got", e.given(e.post("pool", f)), "expected", v))
    base = e.post("pool")
    zs = {t for t in subterms(base) if t.op == "zeroed"}
    C.ob(bool(zs), w, "a new pool's other fields start from zero")
    for z in zs:
        out = {}
        diff("", z, base, out)
        for k, v in out.items():
            C.ob(k in want or allzero(e, v), w, "every other field of a new pool is zero", d("field", mk("sym", k), "value", v))
    C.ob(any(ev.name.endswith("load_init") and ev.vals[0] is e.acct("pool") for ev in e.events), w, "the pool account is new")
    C.ob("creator" in signers(e), w, "the creator signs")
    # --- config still acceptable
    C.ob(e.implied(eq(P("token_type"), I(1 if new else 0))), w, "the token program is the configured one")
    lims = {t.a[0] for t in subterms(e.ok) if t.op == "ite" and t.a[0].op == "lt" and t.a[0].a[1] is I(1000)}
    for mask in range(4):
        tot, u = I(0), TRUE
        for b, p in enumerate(("partner", "creator")):
            q = lambda f, p=p: P("%s_liquidity_vesting_info.%s" % (p, f))
            on = mask >> b & 1
            u = b_and(u, b_not(eq(q("is_initialized"), I(0))) if on else eq(q("is_initialized"), I(0)))
            tot = mk_add(tot, mk_add(locked_after(q, TRUE, 86400) if on else I(0), mk_scale(P("%s_permanent_locked_liquidity_percentage" % p), 100)))
        C.ob(any(e.implied(b_not(atom_bool(a)), u) and e.same(a.a[0], tot, u) for a in lims), w,
             "at least a tenth of the liquidity will still be locked a day after migration")
    B_ = lambda f: P("pool_fees.base_fee." + f)
    m = B_("base_fee_mode")
    for k, low in ((0, mk_sub(B_("cliff_fee_numerator"), mk_mul(B_("third_factor"), B_("first_factor")))),
                   (1, powfee(B_("cliff_fee_numerator"), B_("third_factor"), B_("first_factor"))), (2, B_("cliff_fee_numerator"))):
        C.ob(e.implied(b_not(lt(low, I(2_500_000))), eq(m, I(k))), w, "the pool's fee never falls below 0.25%")
    # --- token
    mints = named(e, "initialize_mint2")
    C.ob(len(mints) == 1 and always(e, mints[0][1]), w, "the base token is created here, once")
    for n, ev, acc, prog, seeds, args in mints:
        C.ob(fld(acc, "mint") is e.acct("base_mint") and e.same(args[0], P("token_decimal")), w, "the base token has the configured decimals",
             d("decimals", args[0]))
        C.ob(args[1] is K("pool_authority") and is_none_opt(args[2]), w, "nobody can freeze the base token")
    ext = [ev for ev in e.events if ev.name.split("::")[-1].endswith("_initialize") and "extension" in ev.name]
    C.ob(all(ev.name.split("::")[-1] in ("metadata_pointer_initialize", "token_metadata_initialize") for ev in ext), w,
         "the base token carries no extension besides metadata", lambda: str([ev.name for ev in ext]))
    mt = named(e, "mint_to", "mint_to_checked")
    C.ob(len(mt) == 1 and always(e, mt[0][1]), w, "base tokens are minted exactly once")
    for n, ev, acc, prog, seeds, args in mt:
        C.ob(who(acc, "mint", "to", "authority") == [e.acct("base_mint"), e.acct("base_vault"), e.acct("pool_authority")], w,
             "the whole base supply goes to the pool's base vault")
        C.ob(e.same(args[0], supply), w, "the base supply is the one the config asks for", d("amount", e.given(args[0]), "expected", supply))
    (upd, mint) = authority_options(e)
    sa = named(e, "set_authority")
    last = [x for x in sa if is_type(x[5][0], "MintTokens")]
    C.ob(len(last) == 1 and always(e, last[0][1]) and all(x[2] is not None and fld(x[2], "account_or_mint") is e.acct("base_mint") for x in last), w,
         "the right to mint base tokens is given away")
    for x in last:
        C.ob(opt_is(e, x[5][1], mint), w, "only a configured creator or partner may mint further base tokens", d("new authority", e.given(x[5][1])))
    raw = [ev for ev in e.events if is_cpi(ev) and b_and(ev.pc, e.ok) is not FALSE
           and any("mint_to" in str(t.a[0]) or "set_authority" in str(t.a[0]) for t in instr_leaves(ev.vals[0]) if t.op == "call")]
    C.ob(not raw, w, "base tokens are minted exactly once")
    metadata_new(C, e, upd) if new else metadata_old(C, e, upd)
    # --- vaults
    for v, mname in (("base_vault", "base_mint"), ("quote_vault", "quote_mint")):
        ia = [x for x in named(e, "initialize_account3") if fld(x[2], "account") is e.acct(v)]
        C.ob(len(ia) == 1 and always(e, ia[0][1]) and who(ia[0][2], "mint", "authority") == [e.acct(mname), e.acct("pool_authority")], w,
             "both vaults are created for the pool's tokens under the pool authority")
    C.ob(e.implied(eq(K("pool_authority"), pool_auth())), w, "the authority over vaults is the program's pool authority")
    # --- creation fee
    fee = P("pool_creation_fee")
    paid = [(ev, t) for ev in e.events if is_cpi(ev) for t in instr_leaves(ev.vals[0]) if t.op == "call" and t.a[0].endswith("instruction::transfer")
            and len(t.a) >= 4 and t.a[2] is K("pool")]
    tot = I(0)
    for ev, t in paid:
        C.ob(t.a[1] is K("payer"), w, "the creation fee comes from the payer")
        tot = mk_add(tot, ite(ev.pc, t.a[3], I(0)))
    C.ob(e.same(tot, fee), w, "the pool receives exactly the configured creation fee", d("got", e.given(tot)))
    # --- event
    evs = e.emits("EvtInitializePool")
    C.ob(len(evs) == 1 and always(e, evs[0]), w, "the launch is announced once")
    for ev in evs:
        for f, v in (("pool", K("pool")), ("config", K("config")), ("creator", K("creator")), ("base_mint", K("base_mint")),
                     ("pool_type", want["pool_type"]), ("activation_point", act)):
            C.ob(e.same(fld(ev.vals[0], f), v), w, "the launch event names the pool as created", d("field", mk("sym", f), "got", fld(ev.vals[0], f)))


def is_none_opt(t):
    return B.is_none(t) is TRUE


def is_type(t, name):
    return t.op == "adt" and t.a[1] == name


def allzero(e, t):
    if t is I(0):
        return True
    if t.op in ("arr",):
        return all(allzero(e, x) for x in t.a)
    if t.op == "adt":
        return all(allzero(e, x) for _, x in t.a[3])
    return e.same(t, I(0))


def metadata_old(C, e, upd):
    w = e.where()
    some, key = upd
    mk_ = [ev for ev in e.events if "CreateMetadataAccountV3" in ev.name and ev.name.endswith("invoke_signed")]
    C.ob(len(mk_) == 1 and always(e, mk_[0]), w, "token metadata is created")
    for ev in mk_:
        b = setters(ev.vals[0])
        C.ob(b.get("mint") == [e.acct("base_mint")] and b.get("metadata") == [e.acct("mint_metadata")], w, "the metadata belongs to the base token")
        m = b.get("is_mutable")
        C.ob(m is not None and e.same(ite(as_bool(m[0]), I(1), I(0)), ite(some, I(1), I(0))), w,
             "metadata is mutable exactly when someone may update it", lambda: show(e.given(m[0])) if m else "unset")
    up = [ev for ev in e.events if "UpdateMetadataAccountV2" in ev.name and ev.name.endswith("invoke_signed")]
    C.ob(len(up) == 1 and always(e, up[0]), w, "the right to update metadata is given away")
    for ev in up:
        b = setters(ev.vals[0])
        n = b.get("new_update_authority")
        C.ob(b.get("metadata") == [e.acct("mint_metadata")] and n is not None
             and e.same(n[0], ite(some, key, e.key_of("system_program"))), w,
             "metadata may be updated only by the configured creator or partner", lambda: show(e.given(n[0]), 8) if n else "unset")
    C.ob(e.implied(eq(e.key_of("metadata_program"), pubkey("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"))), w, "metadata is kept by the metadata program")


def metadata_new(C, e, upd):
    w = e.where()
    some, key = upd
    ini = named(e, "token_metadata_initialize")
    C.ob(len(ini) == 1 and always(e, ini[0][1]) and who(ini[0][2], "mint", "metadata") == [e.acct("base_mint")] * 2, w, "token metadata is created")
    for x in ini:
        C.ob([show(a) for a in x[5]] == ["ix.params.name", "ix.params.symbol", "ix.params.uri"], w, "the metadata holds the given name, symbol and link")
    sa = [x for x in named(e, "set_authority") if is_type(x[5][0], "MetadataPointer")]
    C.ob(len(sa) == 1 and always(e, sa[0][1]) and fld(sa[0][2], "account_or_mint") is e.acct("base_mint"), w, "the right to update metadata is given away")
    for x in sa:
        C.ob(opt_is(e, x[5][1], upd), w, "metadata may be updated only by the configured creator or partner", d("pointer authority", e.given(x[5][1])))
    ua = named(e, "token_metadata_update_authority")
    C.ob(len(ua) == 1 and always(e, ua[0][1]) and fld(ua[0][2], "metadata") is e.acct("base_mint"), w, "the right to update metadata is given away")
    for x in ua:
        src = [t.a[1] for t in subterms(x[5][0]) if t.op == "call" and "OptionalNonZeroPubkey" in str(t.a[0])]
        C.ob(len(src) == 1 and opt_is(e, src[0], upd), w, "metadata may be updated only by the configured creator or partner",
             d("new authority", e.given(x[5][0])))


def setters(t):
    """the calls recorded in a CPI builder: method -> arguments"""
    out = {}
    while t.op == "out" or t.op == "call":
        c = t.a[0] if t.op == "out" else t
        if c.op != "call":
            break
        m = str(c.a[0]).split("::")[-1]
        out.setdefault(m, [a for a in c.a[2:]][:1])
        if len(c.a) < 2 or not isinstance(c.a[1], T):
            break
        t = c.a[1]
    return out
