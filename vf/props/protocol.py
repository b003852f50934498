"""Where the protocol's money may go, and what is announced."""
from . import prop
from .common import *
from .launch import always
from .funds import outflow, apart

ZAP = "validate_zap_out_to_treasury"
STUB_RESTRICTED = (bytes([1] * 32), bytes([2] * 32))     # the restricted mints as they stand in the stub of the zap crate


def ata(owner, mint, program):
    return lambda t: t.op == "call" and t.a[0].endswith("get_associated_token_address_with_program_id") and list(t.a[1:4]) == [owner, mint, program]


def is_ata(e, key, owner, mint, program, under):
    """the key is known to be the owner's associated account for the mint"""
    for s in subterms(b_and(e.ok, under)):
        if s.op == "eq" and key in s.a:
            for x in s.a:
                if x.op == "call" and str(x.a[0]).endswith("get_associated_token_address_with_program_id"):
                    o, m, p = x.a[1:4]
                    if all(e.implied(eq(g, w), under) for g, w in ((o, owner), (m, mint), (p, program))) and e.implied(atom_bool(s), under):
                        return True
    return False


def held_by(e, acct, owner, under):
    """the token account's current authority is known to be the owner"""
    for s in subterms(b_and(e.ok, under)):
        if s.op == "eq" and any(x.op == "fld" or x.op == "as" for x in s.a):
            for x in s.a:
                if any(y.op == "call" and str(y.a[0]).endswith("accessor::authority") and y.a[1] is acct for y in subterms(x)):
                    o = [y for y in s.a if y is not x]
                    if o and e.implied(eq(o[0], owner), under) and e.implied(atom_bool(s), under):
                        return True
    return False


def acct_of(key):
    return key.a[0] if key.op == "key" else None


@prop("C23", floor=20)
def c23(C):
    C.each(["claim_protocol_fee", "zap_protocol_fee"], lambda C, ix: claim(C, C.entry(ix)) if ix.startswith("claim") else zap(C, C.entry(ix)))


def claim(C, e):
    w, T_ = e.where(), pubkey(TREASURY)
    seen = 0
    for t in e.transfers:
        if b_and(e.ok, t.pc) is FALSE:
            continue
        seen += 1
        C.ob(e.implied(eq(t.auth, pool_auth()), t.pc), w, "protocol fees come from the pool's vaults")
        C.ob(is_ata(e, t.dst, T_, t.mint, t.program, t.pc), w, "protocol fees go to the treasury's associated token account", d("destination", t.dst))
        C.ob(acct_of(t.dst) is not None and held_by(e, acct_of(t.dst), T_, t.pc), w, "the treasury still owns the account it is paid on", d("destination", t.dst))
        C.ob(any(e.implied(b_and(eq(t.src, e.pre("pool", v)), eq(t.mint, m)), t.pc) for v, m in
                 (("base_vault", e.pre("pool", "base_mint")), ("quote_vault", e.pre("config", "quote_mint")))), w,
             "protocol fees come from the pool's vaults", d("source", t.src))
    C.ob(seen == 2, w, "both tokens can be claimed")


def zap(C, e):
    w, K = e.where(), e.key_of
    ts = [t for t in e.transfers if b_and(e.ok, t.pc) is not FALSE]
    C.ob(len(ts) == 1, w, "one transfer pays the zap")
    base_mint, quote_mint = e.pre("pool", "base_mint"), e.pre("config", "quote_mint")
    chk = [ev for ev in e.events if ev.name.endswith(ZAP)]
    C.ob(len(chk) == 1 and always(e, chk[0]), w, "the zap is checked")
    for t in ts:
        C.ob(e.implied(t.pc), w, "the zap pays what it booked")
        C.ob(e.implied(lt(I(0), t.amount)), w, "an empty zap fails")
        isb = eq(t.mint, base_mint)
        C.ob(e.implied(eq(t.src, e.pre("pool", "base_vault")), isb) and e.implied(b_and(eq(t.mint, quote_mint), eq(t.src, e.pre("pool", "quote_vault"))), b_not(isb)),
             w, "a zap pays one of the pool's tokens from its vault", d("source", t.src))
        C.ob(e.implied(eq(t.program, mk("owner", acct_of(t.mint)))) if acct_of(t.mint) else False, w, "the token's own program moves it")
        sg = signers(e)
        C.ob(any(is_ata(e, t.dst, K(s), t.mint, t.program, TRUE) and held_by(e, acct_of(t.dst), K(s), TRUE) for s in sg), w,
             "a zap pays the operator's own associated token account", d("destination", t.dst))
        for b in STUB_RESTRICTED:
            C.ob(e.implied(b_not(eq(fld(t.mint, "0"), bytesarr(b)))) or e.implied(b_not(eq(t.mint, pubkey(b)))), w, "restricted tokens cannot be zapped")
        for ev in chk:
            v = ev.vals
            C.ob(len(v) == 7, w, "the zap is checked")
            if len(v) != 7:
                continue
            C.ob(ev.ret.a[-1] is B.CHAIN0, w, "the zap is checked before the tokens leave")
            C.ob(e.implied(b_not(B.is_err(ev.ret))), w, "a rejected zap fails")
            C.ob(e.same(v[0], t.amount), w, "the checker is asked about the amount paid", d("asked", e.given(v[0])))
            raw = lambda k: fld(k, "0")
            C.ob(v[1] is fld(mk("static", CRATE + "::ID"), "0") or v[1] is raw(pubkey(PROGRAM)), w, "the checker is asked about this program")
            C.ob(v[2] is raw(t.dst) and strip(v[3]) is mk("data", acct_of(t.dst)), w, "the checker is asked about the paid account", d("asked", v[2]))
            C.ob(strip(v[4]) is mk("data", mk("acct", "sysvar_instructions")) and
                 any(e.implied(eq(K("sysvar_instructions"), s)) for s in e.equals(K("sysvar_instructions")) if s is not K("sysvar_instructions")), w,
                 "the checker looks at the transaction's instructions", d("asked", v[4]))
            C.ob(v[5] is raw(pubkey(TREASURY)), w, "the checker is asked about the treasury", d("asked", v[5]))
            other(C, e, v[6], isb)


def strip(t):
    while t.op in ("deref", "dataref"):
        t = t.a[0]
    return t


def other(C, e, got, isb):
    """the treasury's associated account for the pool's other token"""
    w = e.where()
    progs = {0: pubkey(SPL_TOKEN), 1: pubkey(SPL_TOKEN_2022)}
    for under, mint, flag in ((isb, e.pre("config", "quote_mint"), e.pre("config", "quote_token_flag")),
                              (b_not(isb), e.pre("pool", "base_mint"), e.pre("pool", "pool_type"))):
        for k, prog in progs.items():
            u = b_and(under, eq(flag, I(k)))
            if b_and(e.ok, u) is FALSE:
                C.ob(False, w, "both kinds of token can be zapped into")
                continue
            g = e.given(got, u)
            g = g.a[0] if g.op == "fld" else g
            good = g.op == "call" and g.a[0].endswith("get_associated_token_address_with_program_id") and g.a[1] is pubkey(TREASURY) \
                and e.same(g.a[2], mint, u) and e.same(g.a[3], prog, u)
            C.ob(good, w, "the zap must end in the treasury's account for the pool's other token", d("asked", g))


# --------------------------------------------------------------------------------------------- events
def simple(ix):
    """event name -> fields, for the instructions that announce one thing"""
    k = lambda n: (lambda e: e.key_of(n))
    pre = lambda n, f: (lambda e: e.pre(n, f))
    out = lambda v: (lambda e: outflow(e, v))
    paid = {"pool": None, "token_base_amount": out("base_vault"), "token_quote_amount": out("quote_vault")}
    P_ = lambda e: e.key_of(pool(e))
    return {
        "claim_trading_fee": ("EvtClaimTradingFee", dict(paid, pool=P_)),
        "claim_creator_trading_fee": ("EvtClaimCreatorTradingFee", dict(paid, pool=P_)),
        "claim_protocol_fee": ("EvtClaimProtocolFee", dict(paid, pool=P_)),
        "partner_withdraw_surplus": ("EvtPartnerWithdrawSurplus", {"pool": P_, "surplus_amount": out("quote_vault")}),
        "creator_withdraw_surplus": ("EvtCreatorWithdrawSurplus", {"pool": P_, "surplus_amount": out("quote_vault")}),
        "withdraw_leftover": ("EvtWithdrawLeftover", {"pool": P_, "leftover_receiver": pre("config", "leftover_receiver"), "leftover_amount": out("base_vault")}),
        "withdraw_migration_fee": ("EvtWithdrawMigrationFee", {"pool": P_, "fee": out("quote_vault"), "flag": lambda e: e.arg("flag")}),
        "claim_partner_pool_creation_fee": ("EvtPartnerClaimPoolCreationFee", {
            "pool": P_, "partner": pre("config", "fee_claimer"), "creation_fee": sol_out, "fee_receiver": sol_to}),
        "claim_protocol_pool_creation_fee": ("EvtClaimPoolCreationFee", {"pool": P_, "receiver": sol_to, "creation_fee": sol_out}),
        "transfer_pool_creator": ("EvtUpdatePoolCreator", {
            "pool": P_, "creator": lambda e: e.pre(pool(e), "creator"), "new_creator": lambda e: e.post(pool(e), "creator")}),
        "close_claim_protocol_fee_operator": ("EvtCloseClaimFeeOperator", {
            "claim_fee_operator": k("claim_fee_operator"), "operator": pre("claim_fee_operator", "operator")}),
        "create_partner_metadata": ("EvtPartnerMetadata", {
            "partner_metadata": k("partner_metadata"), "fee_claimer": lambda e: e.post("partner_metadata", "fee_claimer")}),
        "create_virtual_pool_metadata": ("EvtVirtualPoolMetadata", {"virtual_pool_metadata": k("virtual_pool_metadata"), "virtual_pool": P_}),
        "migration_meteora_damm_create_metadata": ("EvtCreateMeteoraMigrationMetadata", {"virtual_pool": P_}),
    }[ix]


SIMPLE = ("claim_trading_fee", "claim_creator_trading_fee", "claim_protocol_fee", "partner_withdraw_surplus", "creator_withdraw_surplus",
          "withdraw_leftover", "withdraw_migration_fee", "claim_partner_pool_creation_fee", "claim_protocol_pool_creation_fee",
          "transfer_pool_creator", "close_claim_protocol_fee_operator", "create_partner_metadata", "create_virtual_pool_metadata",
          "migration_meteora_damm_create_metadata")


def sol_out(e):
    tot = I(0)
    for op, a, amt, pc in lamport_moves(e):
        if op == "sub" and b_and(pc, e.ok) is not FALSE:
            tot = mk_add(tot, ite(pc, amt, I(0)))
    return tot


def sol_to(e):
    to = {a for op, a, amt, pc in lamport_moves(e) if op == "add" and b_and(pc, e.ok) is not FALSE}
    if len(to) != 1:
        raise Missing("one receiver of SOL in %s" % e.where())
    return mk("key", to.pop())


def sent(C, e):
    """every announced event is delivered by a call of the program to itself, signed by its event authority"""
    for ev in e.emits():
        hit = False
        for c in e.cpis():
            if len(c.vals) < 3 or b_and(c.pc, e.ok) is FALSE:
                continue
            if any(ev.vals[0] is s or ev.ret is s for s in subterms(c.vals[0])) and e.implied(c.pc, ev.pc):
                hit = True
        C.ob(hit, e.where(), "the event is delivered by a call to the program itself", lambda: evname(ev.vals[0]))


def announced(C, e, name, want, under=TRUE, apart_=TRUE):
    w = e.where()
    evs = [x for x in e.emits(name) if b_and(x.pc, e.ok) is not FALSE]
    C.ob(len(evs) == 1, w, "the event is announced once", lambda: "%s: %d" % (name, len(evs)))
    for ev in evs:
        C.ob(e.implied(ev.pc, under) and e.implied(under, ev.pc), w, "the event is announced exactly when it happens", lambda: name)
        have = {f for f, _ in ev.vals[0].a[3]}
        C.ob(have == set(want), w, "the event carries all its fields", lambda: "%s: %s" % (name, sorted(have ^ set(want))))
        for f, v in want.items():
            got = fld(ev.vals[0], f)
            C.ob(e.same(got, v, b_and(under, apart_)) or e.implied(eq(got, v), under), w, "the event says what was done", lambda: "%s.%s = %s, expected %s" % (
                name, f, show(e.given(got), 8)[:300], show(e.given(v), 8)[:300]))


@prop("C29", floor=80)
def c29(C):
    C.each(list(SIMPLE) + ["create_config", "swap", "swap2"], events)


def events(C, ix):
    if ix.startswith("swap"):
        return swap_events(C, ix)
    e = C.entry(ix)
    if ix == "create_config":
        config_events(C, e)
    else:
        name, want = simple(ix)
        a = TRUE
        if any(p in e.accts for p in ("base_vault", "quote_vault")):
            try:
                a = apart(e)
            except Exception:
                a = TRUE
        announced(C, e, name, {f: v(e) for f, v in want.items()}, TRUE, a)
    sent(C, e)


def config_events(C, e):
    A = e.arg("config_parameters")
    K = e.key_of
    both = {"config": K("config"), "quote_mint": K("quote_mint"), "fee_claimer": K("fee_claimer")}
    same_ = ("pool_fees", "collect_fee_mode", "migration_option", "activation_type", "token_decimal", "token_type",
             "partner_permanent_locked_liquidity_percentage", "partner_liquidity_percentage",
             "creator_permanent_locked_liquidity_percentage", "creator_liquidity_percentage", "migration_quote_threshold",
             "sqrt_start_price", "locked_vesting", "migration_fee_option", "curve")
    v1 = dict(both, owner=K("leftover_receiver"))
    for f in same_:
        v1[f] = fld(A, f)
    for f in ("swap_base_amount", "fixed_token_supply_flag", "pre_migration_token_supply", "post_migration_token_supply"):
        v1[f] = e.post("config", f)
    v1["migration_base_amount"] = e.post("config", "migration_base_threshold")
    announced(C, e, "EvtCreateConfig", v1)
    announced(C, e, "EvtCreateConfigV2", dict(both, leftover_receiver=K("leftover_receiver"), config_parameters=A))


def swap_events(C, ix):
    from .swap import Swap
    s = Swap(C, ix)
    e = s.e
    both = {"pool": e.key_of(s.p), "config": e.key_of(s.c), "trade_direction": ite(s.sell, I(0), I(1)), "has_referral": ite(s.ref, I(1), I(0)),
            "current_timestamp": s.ts()}
    for i in s.calls:
        u = s.modes[i]
        if b_and(e.ok, u) is FALSE:
            continue
        q = s.q
        inc = q("included_fee_input_amount")
        old = {0: (s.a0, s.a1), 1: (inc, q("output_amount")), 2: (inc, s.a0)}[i]
        mode = lambda t: e.given(t, u)
        got = {n: [x for x in e.emits(n) if b_and(b_and(x.pc, e.ok), u) is not FALSE] for n in ("EvtSwap", "EvtSwap2", "EvtCurveComplete")}
        for n, cond in (("EvtSwap", TRUE), ("EvtSwap2", TRUE), ("EvtCurveComplete", s.complete())):
            C.ob(len(got[n]) == 1, s.where, "the event is announced once", lambda: n)
            for ev in got[n]:
                C.ob(e.implied(ev.pc, b_and(u, cond)) and e.implied(cond, b_and(u, ev.pc)), s.where, "the event is announced exactly when it happens", lambda: n)
        if not all(len(v) == 1 for v in got.values()):
            continue

        def eq_(n, path, want):
            g = got[n][0].vals[0]
            for p in path.split("."):
                g = fld(g, p)
            C.ob(e.same(g, want, u), s.where, "the event says what was done", lambda: "%s.%s = %s, expected %s" % (
                n, path, show(e.given(g, u), 8)[:300], show(e.given(want, u), 8)[:300]))
        for n in ("EvtSwap", "EvtSwap2"):
            for f, v in both.items():
                g = fld(got[n][0].vals[0], f)
                if f == "has_referral":
                    g = ite(as_bool(g), I(1), I(0))
                C.ob(e.same(g, v, u), s.where, "the event says what was done", lambda: "%s.%s = %s" % (n, f, show(e.given(g, u), 8)[:300]))
        eq_("EvtSwap", "amount_in", inc)
        eq_("EvtSwap", "params.amount_in", old[0])
        eq_("EvtSwap", "params.minimum_amount_out", old[1])
        for f, k in (("actual_input_amount", "excluded_fee_input_amount"), ("output_amount", "output_amount"), ("next_sqrt_price", "next_sqrt_price"),
                     ("trading_fee", "trading_fee"), ("protocol_fee", "protocol_fee"), ("referral_fee", "referral_fee")):
            eq_("EvtSwap", "swap_result." + f, q(k))
        for f in ("amount_left", "included_fee_input_amount", "excluded_fee_input_amount", "output_amount", "next_sqrt_price", "trading_fee",
                  "protocol_fee", "referral_fee"):
            eq_("EvtSwap2", "swap_result." + f, q(f))
        for f, v in (("amount_0", s.a0), ("amount_1", s.a1), ("swap_mode", s.mode)):
            eq_("EvtSwap2", "swap_parameters." + f, v)
        eq_("EvtSwap2", "quote_reserve_amount", s.reserve("quote"))
        eq_("EvtSwap2", "migration_threshold", e.pre(s.c, "migration_quote_threshold"))
        eq_("EvtCurveComplete", "pool", e.key_of(s.p))
        eq_("EvtCurveComplete", "config", e.key_of(s.c))
        eq_("EvtCurveComplete", "base_reserve", s.reserve("base"))
        eq_("EvtCurveComplete", "quote_reserve", s.reserve("quote"))
    sent(C, e)
