"""Creation of configs: what is accepted and what is stored."""
from . import prop
from .common import *
from .swapmath import okv
from ..spec import PURE

WIDE = tuple(b for b in PURE if b != "ConfigParameters::validate")
MAXP = 79226673521066979257578248091
MINP = 4295048016
MAX128 = (1 << 128) - 1
PAR = CRATE + "::params::liquidity_distribution::"
VEST = ("vesting_percentage", "bps_per_period", "number_of_periods", "cliff_duration_from_migration_time", "frequency")
SCHED = ("number_of_period", "sqrt_price_step_bps", "scheduler_expiration_duration", "reduction_factor")


class Cfg:
    def __init__(self, C, boundary=WIDE):
        self.C, self.e = C, C.entry("create_config", boundary)
        self.e.acct("config"), self.e.acct("quote_mint"), self.e.acct("leftover_receiver"), self.e.acct("fee_claimer")
        self.where = self.e.where()

    def __call__(self, path):
        t = self.e.arg("config_parameters")
        for f in path.split("."):
            t = fld(t, f)
        return t

    def is_(self, path, v):
        return eq(self(path), I(v))

    def need(self, cond, rule, under=TRUE):
        self.C.ob(self.e.implied(cond, under), self.where, rule)

    def upto(self, path, v, rule, under=TRUE):
        self.need(lt(self(path), I(v + 1)), rule, under)

    def zero(self, paths):
        r = TRUE
        for p in paths:
            r = b_and(r, self.is_(p, 0))
        return r


def vesting_terms(g, now, tv=None):
    """liquidity vesting as the new pool will run it: cliff point, per period, cliff amount, frequency, periods, total"""
    tv = mk_div(mk_scale(g("vesting_percentage"), MAX128), I(100)) if tv is None else tv
    np_, cd = g("number_of_periods"), g("cliff_duration_from_migration_time")
    after = mk_div(mk_mul(tv, mk_mul(g("bps_per_period"), np_)), I(10000))
    per = ite(eq(np_, I(0)), I(0), mk_div(after, np_))
    none = eq(per, I(0))
    n = ite(none, I(0), np_)
    fr = ite(none, I(0), g("frequency"))
    c = ite(none, mk_max(cd, I(1)), cd)
    return dict(cliff=mk_add(now, c), per=per, n=n, freq=fr, unlock=mk_sub(tv, mk_mul(per, n)), total=tv, wait=c)


def locked_after(g, on, secs):
    v = vesting_terms(g, I(0))
    periods = mk_min(mk_div(mk_sub(I(secs), v["wait"]), v["freq"]), v["n"])
    free = ite(eq(v["freq"], I(0)), v["unlock"], mk_add(v["unlock"], mk_mul(periods, v["per"])))
    free = ite(lt(I(secs), v["wait"]), I(0), free)
    return ite(on, mk_div(mk_scale(mk_sub(v["total"], free), 10000), I(MAX128)), I(0))


@prop("C17", floor=55)
def c17(C):
    C.each(["create_config"], lambda C, ix: validated(C, Cfg(C)))


def validated(C, g):
    e = g.e
    for p, top, what in (("activation_type", 1, "activation type"), ("collect_fee_mode", 1, "fee collection mode"),
                         ("migration_option", 1, "migration option"), ("token_type", 1, "token type"),
                         ("migration_fee_option", 6, "migration fee option"), ("token_update_authority", 4, "token authority option"),
                         ("pool_fees.base_fee.base_fee_mode", 2, "base fee mode")):
        g.upto(p, top, "an unknown %s is rejected" % what)
    g.upto("creator_trading_fee_percentage", 100, "the creator's share of trading fees is at most 100%")
    g.upto("migration_fee.fee_percentage", 99, "the migration fee is at most 99%")
    g.upto("migration_fee.creator_fee_percentage", 100, "the creator's share of the migration fee is at most 100%")
    g.need(g.is_("migration_fee.creator_fee_percentage", 0), "no creator share of an absent migration fee", g.is_("migration_fee.fee_percentage", 0))
    g.need(b_not(lt(g("token_decimal"), I(6))), "at least 6 decimals")
    g.upto("token_decimal", 9, "at most 9 decimals")
    s = I(0)
    for who in ("partner", "creator"):
        for x in ("%s_liquidity_percentage", "%s_permanent_locked_liquidity_percentage", "%s_liquidity_vesting_info.vesting_percentage"):
            s = mk_add(s, g(x % who))
    g.need(eq(s, I(100)), "the liquidity shares add up to 100%")
    g.need(b_not(g.is_("migration_quote_threshold", 0)), "the migration threshold is positive")
    quote_token(C, g)
    # base fee
    cliff = g("pool_fees.base_fee.cliff_fee_numerator")
    F = lambda i: g("pool_fees.base_fee.%s_factor" % i)
    facs = [eq(F(i), I(0)) for i in ("first", "second", "third")]
    zero = b_and(b_and(facs[0], facs[1]), facs[2])
    sched, lim = b_not(g.is_("pool_fees.base_fee.base_fee_mode", 2)), g.is_("pool_fees.base_fee.base_fee_mode", 2)
    g.upto("pool_fees.base_fee.cliff_fee_numerator", 990_000_000, "the cliff fee is at most 99%")
    g.need(b_not(lt(cliff, I(2_500_000))), "the cliff fee is at least 0.25%", lim)
    for f in facs:
        g.need(b_not(f), "base fee factors are all given or all absent", b_not(zero))
    lin = g.is_("pool_fees.base_fee.base_fee_mode", 0)
    low = mk_sub(cliff, mk_mul(F("third"), F("first")))
    g.need(b_not(lt(low, I(2_500_000))), "a linear schedule never falls below 0.25%", lin)
    lowx = powfee(cliff, F("third"), F("first"))
    g.need(b_not(lt(lowx, I(2_500_000))), "an exponential schedule never falls below 0.25%", b_and(sched, b_not(lin)))
    g.need(g.is_("collect_fee_mode", 0), "a rate limiter needs quote-token fees", lim)
    onlim = b_and(lim, b_not(zero))
    for act, top in ((0, 108000), (1, 43200)):
        g.upto("pool_fees.base_fee.second_factor", top, "a rate limiter lasts at most 12 hours", b_and(onlim, g.is_("activation_type", act)))
    g.need(lt(mk_div(mk_scale(F("first"), 10 ** 9), I(10000)), I(10 ** 9)), "a rate limiter's increment stays below 100%", onlim)
    # dynamic fee
    dyn = g("pool_fees.dynamic_fee")
    some = atom_bool(mk("is", dyn, "Some"))
    D = lambda f: fld(fld(as_var(dyn, "Some", 1), "0"), f)
    for c, r in ((eq(D("bin_step"), I(1)), "the price step is one basis point"),
                 (eq(D("bin_step_u128"), I(1844674407370955)), "the price step in fixed point is one basis point"),
                 (lt(D("filter_period"), D("decay_period")), "the filter period is shorter than the decay period"),
                 (lt(D("reduction_factor"), I(10001)), "volatility is reduced by at most 100%"),
                 (lt(D("variable_fee_control"), I(1 << 24)), "the fee control fits 24 bits"),
                 (lt(D("max_volatility_accumulator"), I(1 << 24)), "the volatility bound fits 24 bits")):
        g.need(c, "dynamic fee: " + r, some)
    # what the new pool will be
    v1, v2 = g.is_("migration_option", 0), g.is_("migration_option", 1)
    mp = ["migrated_pool_fee." + x for x in ("collect_fee_mode", "dynamic_fee", "pool_fee_bps")] + \
         ["compounding_fee_bps", "migrated_pool_base_fee_mode"] + ["migrated_pool_market_cap_fee_scheduler_params." + x for x in SCHED]
    custom = g.is_("migration_fee_option", 6)
    for p in mp:
        g.need(g.is_(p, 0), "pool fee settings are given only for a customisable new pool", b_not(b_and(v2, custom)))
    g.need(b_not(custom), "a customisable pool fee needs the newer pool program", v1)
    g.need(g.is_("token_type", 0), "the older pool program takes only classic tokens", v1)
    for who in ("partner", "creator"):
        g.need(g.zero(["%s_liquidity_vesting_info.%s" % (who, x) for x in VEST]), "liquidity vesting needs the newer pool program", v1)
    u = b_and(v2, custom)
    bps = g("migrated_pool_fee.pool_fee_bps")
    g.need(b_and(b_not(lt(bps, I(10))), lt(bps, I(1001))), "the new pool's fee is between 0.1% and 10%", u)
    g.upto("migrated_pool_fee.collect_fee_mode", 2, "an unknown collection mode of the new pool is rejected", u)
    g.upto("migrated_pool_fee.dynamic_fee", 1, "an unknown dynamic-fee option of the new pool is rejected", u)
    comp = g.is_("migrated_pool_fee.collect_fee_mode", 2)
    g.need(b_and(b_not(g.is_("compounding_fee_bps", 0)), lt(g("compounding_fee_bps"), I(10001))), "a compounding fee is given for a compounding pool",
           b_and(u, comp))
    g.need(g.is_("compounding_fee_bps", 0), "a compounding fee is given only for a compounding pool", b_and(u, b_not(comp)))
    bm = g("migrated_pool_base_fee_mode")
    g.need(b_and(lt(bm, I(5)), b_not(eq(bm, I(2)))), "the new pool's base fee mode is a known one and not a rate limiter", u)
    cap = b_and(u, b_or(eq(bm, I(3)), eq(bm, I(4))))
    SC = lambda f: g("migrated_pool_market_cap_fee_scheduler_params." + f)
    for x in SCHED:
        g.need(eq(SC(x), I(0)), "a market-cap schedule is given only for a market-cap fee", b_and(u, lt(bm, I(2))))
        g.need(b_not(eq(SC(x), I(0))), "a market-cap fee needs a complete schedule", cap)
    mc = mk_div(mk_scale(bps, 10 ** 9), I(10000))
    g.need(b_not(lt(mk_sub(mc, mk_mul(SC("reduction_factor"), SC("number_of_period"))), I(100_000))),
           "a linear market-cap schedule never falls below the new pool's minimum fee", b_and(u, eq(bm, I(3))))
    g.need(b_not(lt(powfee(mc, SC("reduction_factor"), SC("number_of_period")), I(100_000))),
           "an exponential market-cap schedule never falls below the new pool's minimum fee", b_and(u, eq(bm, I(4))))
    now = mk("cast", mk("fld", mk("sysvar", "Clock"), "unix_timestamp"), "i64", "u64")
    for who in ("partner", "creator"):
        q = lambda f: g("%s_liquidity_vesting_info.%s" % (who, f))
        any_ = b_and(v2, b_not(g.zero(["%s_liquidity_vesting_info.%s" % (who, x) for x in VEST])))
        v = vesting_terms(q, now)
        g.need(b_not(eq(v["total"], I(0))), "a liquidity vesting locks something", any_)
        g.need(lt(mk_add(v["wait"], mk_mul(v["freq"], v["n"])), I(63072000 + 1)), "a liquidity vesting lasts at most two years", any_)
        g.need(b_or(eq(v["n"], I(0)), b_not(eq(v["freq"], I(0)))), "vesting periods have a length", any_)
    # token vesting
    L = lambda f: g("locked_vesting." + f)
    lz = g.zero(["locked_vesting." + f for f in ("amount_per_period", "cliff_duration_from_migration_time", "frequency", "number_of_period",
                                                 "cliff_unlock_amount")])
    g.need(b_not(eq(L("frequency"), I(0))), "a token vesting has a frequency", b_not(lz))
    g.need(b_not(eq(mk_add(L("cliff_unlock_amount"), mk_mul(L("amount_per_period"), L("number_of_period"))), I(0))),
           "a token vesting vests something", b_not(lz))
    fee = g("pool_creation_fee")
    g.need(b_or(eq(fee, I(0)), b_and(b_not(lt(fee, I(1_000_000))), lt(fee, I(100_000_000_001)))), "the pool creation fee is zero or within bounds")
    # curve
    start = g("sqrt_start_price")
    g.need(b_and(b_not(lt(start, I(MINP))), lt(start, I(MAXP))), "the start price is within bounds")
    cv = g("curve")
    n = mk("len", cv)
    lens = {t for t in subterms(e.ok) if t.op == "len" and t.a[0] is cv}
    C.ob(bool(lens), g.where, "the curve's length is looked at")
    g.need(b_and(b_not(eq(n, I(0))), lt(n, I(17))), "the curve has 1 to 16 points")
    at = lambda i, f: fld(sel(cv, i), f)
    g.need(b_and(lt(start, at(I(0), "sqrt_price")), b_not(eq(at(I(0), "liquidity"), I(0)))), "the first point lies above the start price and has liquidity")
    g.need(lt(at(mk_sub(n, I(1)), "sqrt_price"), I(MAXP + 1)), "the last price is within bounds")
    rising(C, g, cv, n, at)


def quote_token(C, g):
    """classic token, or a newer one without extensions that could interfere with transfers"""
    e = g.e
    is_owner = lambda x: x.op == "owner" and x.a[0] is e.acct("quote_mint")
    own = [t.a[0] for t in subterms(e.ok) if t.op == "ite" and t.a[0].op == "eq" and any(is_owner(x) for x in t.a[0].a)]
    C.ob(bool(own), g.where, "the quote token's program is looked at")
    spl = FALSE
    for a in own:
        o = [x for x in a.a if not is_owner(x)]
        if o and (o[0] is mk("progid", "anchor_spl::token::Token") or "Token" in str(o[0].a[0]) and "2022" not in str(o[0].a[0])):
            spl = atom_bool(a)
    C.ob(e.implied(spl, g.is_("migration_option", 0)), g.where, "the older pool program takes only classic quote tokens")
    new = b_not(spl)
    nat = [t.a[0] for t in subterms(e.ok) if t.op == "ite" and t.a[0].op == "call" and "native_mint" in str(t.a[0].a[0])]
    C.ob(any(e.implied(b_not(atom_bool(a)), new) for a in nat), g.where, "the newer program's native mint is not a quote token")
    good = False

    def harmless(again, x):
        okk = FALSE
        for k in {t for t in subterms(again) if t.op == "adt" and str(t.a[0]).endswith("ExtensionType")}:
            if k.a[1] in ("MetadataPointer", "TokenMetadata"):
                okk = b_or(okk, eq(k, x))
        for k in (18, 19):      # the same two by discriminant
            okk = b_or(okk, eq(discr_of(x), I(k)))
        return okk
    for lo, hi, fact in universals(e, new):
        for t in subterms(fact):
            if t.op == "sel" and t.a[1] is B.BOUND and "get_extension_types" in show(t.a[0], 9):
                good = good or lo is I(0) and hi is mk("len", t.a[0]) and b_and(fact, b_not(harmless(fact, t))) is FALSE
    for lid, li in e.R.loops_info.items():
        exts = [t for t in subterms(li["again"]) if t.op == "call" and "get_extension_types" in str(t.a[0])]
        for m, init, step in counters(li):
            seq = fld(as_var(exts[0], "Ok", 0), "0") if exts else None
            if seq is None:
                continue
            x = sel(seq, m)
            okk = harmless(li["again"], x)
            good = good or (init is I(0) and step is I(1) and b_and(li["again"], b_not(okk)) is FALSE
                            and e.implied(b_not(lt(m, mk("len", seq))), new))
    C.ob(good, g.where, "a newer quote token carries no extension besides metadata")


def universals(e, under=TRUE):
    """(first, end, fact): the fact holds at every index B.BOUND from first to end whenever the instruction succeeds"""
    for a in {t.a[0] for t in subterms(e.ok) if t.op == "ite" and t.a[0].op == "exists"}:
        if e.implied(b_not(atom_bool(a)), under):
            yield a.a[0], a.a[1], b_not(a.a[2])


def rising(C, g, cv, n, at):
    e = g.e
    best = None
    for lo, hi, fact in universals(e):
        if not any(t is cv for t in subterms(fact)):
            continue
        for i in (B.BOUND, mk_add(B.BOUND, I(1))):
            up = b_and(lt(at(mk_sub(i, I(1)), "sqrt_price"), at(i, "sqrt_price")), b_not(eq(at(i, "liquidity"), I(0))))
            if b_and(fact, b_not(up)) is FALSE and replace(i, {B.BOUND: lo}) is I(1):
                best = best or e.implied(b_not(lt(replace(i, {B.BOUND: hi}), n)))
    for lid, li in e.R.loops_info.items():
        if not any(t is cv for w in [li["again"]] + [x[2] for x in triples(li)] for t in subterms(w)):
            continue
        for m, init, step in counters(li):
            if step is not I(1):
                continue
            rel = in_step(li, m, init, step)
            # a variable that always holds the previous point's price
            for v, i0, nxt in triples(li):
                if i0 is at(mk_sub(init, I(1)), "sqrt_price") and replace(given(nxt, li["again"]), rel) is at(m, "sqrt_price"):
                    rel[v] = at(mk_sub(m, I(1)), "sqrt_price")
            # a flag that must survive to the end
            facts = [li["again"]] + [as_bool(nxt) for v, i0, nxt in triples(li) if i0 in (I(1), TRUE) and as_bool_ok(nxt)
                                     and b_and(as_bool(nxt), b_not(as_bool(v))) is FALSE and e.implied(as_bool(v))]
            for fact in facts:
                fact = b_and(li["again"], fact)
                fact = replace(fact, rel) if rel else fact
                for first, i in ((1, m), (0, mk_add(m, I(1)))):
                    up = b_and(lt(at(mk_sub(i, I(1)), "sqrt_price"), at(i, "sqrt_price")), b_not(eq(at(i, "liquidity"), I(0))))
                    if b_and(fact, b_not(up)) is FALSE and init is I(first):
                        best = best or b_and(replace(e.ok, rel) if rel else e.ok, b_and(lt(m, n), lt(i, n))) is FALSE
    C.ob(bool(best), g.where, "prices rise from point to point and every point has liquidity")


def as_bool_ok(t):
    try:
        return as_bool(t) is not None
    except Exception:
        return False


def in_step(li, m, init, step):
    """loop variables that keep a constant distance from m"""
    r = {}
    for v, i0, k in counters(li):
        off = mk_sub(i0, init)
        if v is not m and k is step and off.op == "int":
            r[v] = mk_add(m, off)
    return r


def triples(li):
    return [m for m in li["mus"] if isinstance(m, (tuple, list)) and len(m) == 3]


def counters(li):
    """(loop variable, initial value, step) of the counters of a loop"""
    for v, init, nxt in triples(li):
        k = given(mk_sub(nxt, v), li["again"])
        if k.op == "int":
            yield v, init, k


def powfee(cliff, factor, n):
    base = mk_sub(I(1 << 64), mk_div(mk_mul(factor, I(1 << 64)), I(10000)))
    p = fld(as_var(mk("call", CRATE + "::math::fee_math::pow", base, n), "Some", 1), "0")
    return mk_div(mk_mul(cliff, p), I(1 << 64))


DIRECT = ("collect_fee_mode", "migration_option", "activation_type", "token_decimal", "token_type", "partner_liquidity_percentage",
          "partner_permanent_locked_liquidity_percentage", "creator_liquidity_percentage", "creator_permanent_locked_liquidity_percentage",
          "migration_quote_threshold", "sqrt_start_price", "migration_fee_option", "creator_trading_fee_percentage", "token_update_authority",
          "pool_creation_fee", "migrated_pool_base_fee_mode", "pool_fees.base_fee.cliff_fee_numerator", "pool_fees.base_fee.first_factor",
          "pool_fees.base_fee.second_factor", "pool_fees.base_fee.third_factor", "pool_fees.base_fee.base_fee_mode")
RENAMED = {"migration_fee_percentage": "migration_fee.fee_percentage", "creator_migration_fee_percentage": "migration_fee.creator_fee_percentage",
           "migrated_collect_fee_mode": "migrated_pool_fee.collect_fee_mode", "migrated_dynamic_fee": "migrated_pool_fee.dynamic_fee",
           "migrated_pool_fee_bps": "migrated_pool_fee.pool_fee_bps", "migrated_compounding_fee_bps": "compounding_fee_bps"}
LOCK = ("amount_per_period", "cliff_duration_from_migration_time", "frequency", "number_of_period", "cliff_unlock_amount")


@prop("C33", floor=50)
def c33(C):
    C.each(["create_config"], lambda C, ix: stored(C, Cfg(C, PURE)))


def stored(C, g):
    e, w = g.e, g.where
    P = lambda f: e.post("config", f)

    def same(got, want, rule, under=TRUE):
        C.ob(e.same(got, want, under), w, rule, d("got", e.given(got, under), "expected", want))
    for f in DIRECT:
        same(P(f), g(f), "the config keeps the given value")
    for f, p in RENAMED.items():
        same(P(f), g(p), "the config keeps the given value")
    for f in LOCK:
        same(P("locked_vesting_config." + f), g("locked_vesting." + f), "the config keeps the given token vesting")
    for who in ("partner", "creator"):
        for f in VEST:
            same(P("%s_liquidity_vesting_info.%s" % (who, f)), g("%s_liquidity_vesting_info.%s" % (who, f)), "the config keeps the given liquidity vesting")
        z = g.zero(["%s_liquidity_vesting_info.%s" % (who, x) for x in VEST])
        same(P("%s_liquidity_vesting_info.is_initialized" % who), ite(z, I(0), I(1)), "a liquidity vesting counts as set exactly when one was given")
    same(P("enable_first_swap_with_min_fee"), ite(as_bool(g("enable_first_swap_with_min_fee")), I(1), I(0)), "the config keeps the given value")
    for f, n in (("quote_mint", "quote_mint"), ("fee_claimer", "fee_claimer"), ("leftover_receiver", "leftover_receiver")):
        same(P(f), e.key_of(n), "the config names the given accounts")
    dyn = g("pool_fees.dynamic_fee")
    some = atom_bool(mk("is", dyn, "Some"))
    for f in ("bin_step", "bin_step_u128", "filter_period", "decay_period", "reduction_factor", "max_volatility_accumulator", "variable_fee_control"):
        same(P("pool_fees.dynamic_fee." + f), fld(fld(as_var(dyn, "Some", 1), "0"), f), "the config keeps the given dynamic fee", some)
    same(P("pool_fees.dynamic_fee.initialized"), ite(some, I(1), I(0)), "the dynamic fee is on exactly when one was given")
    # market-cap schedule, serialised in order
    ser = lambda t: {x for x in [t] + list(subterms(t)) if x.op == "call" and str(x.a[0]).endswith("BorshSerialize>::serialize")}
    got = [x.a[1] for x in sorted(ser(P("migrated_pool_base_fee_bytes")), key=lambda x: -len(ser(x)))]
    C.ob([x for x in reversed(got)] == [g("migrated_pool_market_cap_fee_scheduler_params." + f) for f in SCHED], w,
         "the config keeps the given market-cap schedule, field by field in order", lambda: str([show(x) for x in got]))
    # the curve, point by point
    cv = g("curve")
    good = False
    for lid, li in e.R.loops_info.items():
        for v, init, nxt in triples(li):
            if v is not P("curve"):
                continue
            for m, i0, step in counters(li):
                pt = sel(cv, m)
                rel = in_step(li, m, i0, step)
                val = given(replace(nxt, rel), replace(li["again"], rel))
                short = b_and(lt(m, mk("len", cv)), lt(m, I(16)))        # at most 16 points: C17
                good = (i0 is I(0) and step is I(1) and val.op == "store" and val.a[0] is v and val.a[1] is m
                        and fld(val.a[2], "sqrt_price") is fld(pt, "sqrt_price") and fld(val.a[2], "liquidity") is fld(pt, "liquidity")
                        and init.op != "mu" and b_and(replace(e.ok, rel), short) is FALSE
                        and "zeroed" in show(init, 3))
                if good:
                    break
    C.ob(good, w, "the config keeps every curve point, in order, and nothing else in the curve")
    # derived quantities
    mp = okv(PAR + "get_migration_threshold_price", g("migration_quote_threshold"), g("sqrt_start_price"), cv)
    same(P("migration_sqrt_price"), mp, "the migration price is the curve's price at the threshold")
    g.need(lt(mp, I(MAXP)), "the migration price stays below the maximum")
    base = okv(PAR + "get_base_token_for_swap", g("sqrt_start_price"), mp, cv)
    same(P("swap_base_amount"), base, "the base amount on the curve is what the curve sells up to the migration price")
    g.need(b_not(eq(P("swap_base_amount"), I(0))), "the curve sells something")
    g.need(b_not(eq(P("migration_base_threshold"), I(0))), "base tokens remain for the new pool")
    sup = g("token_supply")
    fixed = atom_bool(mk("is", sup, "Some"))
    pre, post = [fld(fld(as_var(sup, "Some", 1), "0"), f) for f in ("pre_migration_token_supply", "post_migration_token_supply")]
    same(P("fixed_token_supply_flag"), ite(fixed, I(1), I(0)), "the supply is fixed exactly when one was given")
    same(P("pre_migration_token_supply"), ite(fixed, pre, I(0)), "the config keeps the given supplies")
    same(P("post_migration_token_supply"), ite(fixed, post, I(0)), "the config keeps the given supplies")
    g.need(b_not(lt(pre, post)), "the supply never grows at migration", fixed)
    rest = mk_add(P("migration_base_threshold"), mk_add(g("locked_vesting.cliff_unlock_amount"),
                                                       mk_mul(g("locked_vesting.amount_per_period"), g("locked_vesting.number_of_period"))))
    g.need(b_not(lt(post, mk_add(P("swap_base_amount"), rest))), "a fixed supply covers curve, new pool and vesting after migration", fixed)
    buf = okv(CRATE + "::state::config::PoolConfig::get_swap_amount_with_buffer", P("swap_base_amount"), g("sqrt_start_price"), cv)
    g.need(b_not(lt(pre, mk_add(buf, rest))), "a fixed supply covers curve with buffer, new pool and vesting before migration", fixed)
    g.need(b_not(eq(e.key_of("leftover_receiver"), pubkey(bytes(32)))), "a fixed supply needs a receiver for what is left", fixed)
    # liquidity locked for a day
    lims = {t.a[0] for t in subterms(e.ok) if t.op == "ite" and t.a[0].op == "lt" and t.a[0].a[1] is I(1000)}
    for mask in range(4):
        tot, u = I(0), TRUE
        for b, who in enumerate(("partner", "creator")):
            q = lambda f: g("%s_liquidity_vesting_info.%s" % (who, f))
            none = g.zero(["%s_liquidity_vesting_info.%s" % (who, x) for x in VEST])
            on = mask >> b & 1
            u = b_and(u, b_not(none) if on else none)
            tot = mk_add(tot, mk_add(locked_after(q, TRUE, 86400) if on else I(0), mk_scale(g("%s_permanent_locked_liquidity_percentage" % who), 100)))
        C.ob(any(e.implied(b_not(atom_bool(a)), u) and e.same(a.a[0], tot, u) for a in lims), w,
             "at least a tenth of the liquidity is still locked a day after migration")
