"""The swap instructions: amounts moved, what the pool books, completion, anti-sniping, volatility, events."""
from . import prop
from .common import *
from .swapmath import DIRT, okv
from ..engine import Root

VPN = CRATE + "::state::virtual_pool::VirtualPool::"
QUOTES = ("exact_input", "partial_input", "exact_output")
IXS = ("swap", "swap2")
FIELDS = ("amount_left", "included_fee_input_amount", "excluded_fee_input_amount", "output_amount", "next_sqrt_price", "trading_fee",
          "protocol_fee", "referral_fee")
DISC_SWAP = bytes.fromhex("f8c69e91e17587c8")
DISC_SWAP2 = bytes.fromhex("414b3f4ceb5b5b88")
DISC_INIT = (bytes.fromhex("8c55d7b06636684f"), bytes.fromhex("a976334e916edc9b"))


class Swap:
    """a swap instruction, its parameters, and the quote it used"""

    def __init__(self, C, ix):
        self.C, self.e = C, C.entry(ix)
        e = self.e
        for n in ("input_token_account", "output_token_account", "base_vault", "quote_vault", "payer", "referral_token_account", "base_mint",
                  "quote_mint"):
            e.acct(n)
        self.p, self.c = pool(e), config(e)
        self.sell = eq(e.key_of("base_mint"), e.pre("input_token_account", "mint"))
        self.buy = b_not(self.sell)
        self.ref = atom_bool(mk("present", e.acct("referral_token_account")))
        par = e.arg("params")
        if ix == "swap":
            self.a0, self.a1, self.mode = fld(par, "amount_in"), fld(par, "minimum_amount_out"), I(0)
        else:
            self.a0, self.a1, self.mode = fld(par, "amount_0"), fld(par, "amount_1"), fld(par, "swap_mode")
        self.modes = [eq(self.mode, I(i)) for i in range(3)]
        self.calls = {}
        for s in subterms((e.ok, e.post(self.p))):
            if s.op == "call":
                for i, k in enumerate(QUOTES):
                    if s.a[0] == VPN + "get_swap_result_from_" + k:
                        self.calls.setdefault(i, [])
                        if s not in self.calls[i]:
                            self.calls[i].append(s)
        need = (0,) if ix == "swap" else (0, 1, 2)
        for i in need:
            if i not in self.calls:
                raise (Missing if C.main.find("get_swap_result_from_" + QUOTES[i], all=True) else Undecided)("the %s quote in %s" % (QUOTES[i], e.where()))
        self.where = e.where()
        self.now = None

    def calls_live(self, i):
        return [s for s in self.calls.get(i, ())]

    def q(self, f):
        """field of the quote the swap is based on"""
        e = self.e
        out = None
        for i in sorted(self.calls, reverse=True):
            v = None
            for s in self.calls[i]:
                t = fld(fld(as_var(s, "Ok", 0), "0"), f)
                v = t if v is None else v
            out = v if out is None else ite(self.modes[i], v, out)
        return out

    def ts(self):
        return mk("cast", mk("fld", mk("sysvar", "Clock"), "unix_timestamp"), "i64", "u64")

    def fob(self):
        """the fee is taken in the base token"""
        return b_and(self.buy, b_not(eq(self.e.pre(self.c, "collect_fee_mode"), I(0))))

    def fin(self):
        return b_and(self.buy, eq(self.e.pre(self.c, "collect_fee_mode"), I(0)))

    def fees(self):
        return mk_add(mk_add(self.q("trading_fee"), self.q("protocol_fee")), self.q("referral_fee"))

    def gross_out(self):
        return mk_add(self.q("output_amount"), ite(self.fin(), I(0), self.fees()))

    def reserve(self, which):
        inn, out = self.q("excluded_fee_input_amount"), self.gross_out()
        pre = self.e.pre(self.p, which + "_reserve")
        plus = self.sell if which == "base" else self.buy
        return ite(plus, mk_add(pre, inn), mk_sub(pre, out))

    def complete(self):
        return b_not(lt(self.reserve("quote"), self.e.pre(self.c, "migration_quote_threshold")))

    def point(self):
        return ite(eq(self.e.pre(self.c, "activation_type"), I(0)), mk("fld", mk("sysvar", "Clock"), "slot"), self.ts())


def S(C, s, got, want, rule, under=None):
    """equal in every mode"""
    for i in s.calls:
        u = s.modes[i] if under is None else b_and(under, s.modes[i])
        if b_and(s.e.ok, u) is FALSE:
            continue
        C.ob(s.e.same(got, want, u), s.where, rule, d("got", s.e.given(got, u), "expected", s.e.given(want, u)))


def imp(C, s, cond, rule, under=TRUE):
    for i in s.calls:
        u = b_and(under, s.modes[i])
        if b_and(s.e.ok, u) is FALSE:
            continue
        C.ob(s.e.implied(s.e.given(cond, u) if cond.op == "ite" else cond, u), s.where, rule)


def per_swap(f):
    def go(C):
        C.each(IXS, lambda C, ix: f(C, Swap(C, ix)))
    go.__name__ = f.__name__
    return go


@prop("C10", floor=30)
@per_swap
def c10(C, s):
    e = s.e
    C.ob(e.implied(b_not(eq(s.a0, I(0)))), s.where, "a zero amount is rejected")
    any_mode = b_or(b_or(s.modes[0], s.modes[1]), s.modes[2])
    C.ob(e.implied(any_mode), s.where, "an unknown swap mode is rejected")
    out, inc = s.q("output_amount"), s.q("included_fee_input_amount")
    C.ob(e.implied(b_not(lt(out, s.a1)), b_not(s.modes[2])), s.where, "the trader gets at least the minimum asked for")
    C.ob(e.implied(b_not(lt(s.a1, inc)), s.modes[2]), s.where, "the trader pays at most the maximum allowed")
    # what moves
    T = [t for t in e.transfers if b_and(e.ok, t.pc) is not FALSE]
    user, got = e.key_of("input_token_account"), e.key_of("output_token_account")
    bv, qv = e.key_of("base_vault"), e.key_of("quote_vault")
    rf = e.key_of("referral_token_account")
    vin, vout = ite(s.sell, bv, qv), ite(s.sell, qv, bv)
    ins = [t for t in T if e.implied(eq(t.auth, e.key_of("payer")), t.pc)]
    outs = [t for t in T if t not in ins]
    C.ob(bool(ins), s.where, "the trader pays")
    tot = I(0)
    for t in ins:
        C.ob(e.same(t.src, user, t.pc) and e.same(t.dst, vin, t.pc), s.where, "the trader pays from the input account into the matching vault",
             d("from", t.src, "to", t.dst))
        C.ob(e.same(t.mint, ite(s.sell, e.key_of("base_mint"), e.key_of("quote_mint")), t.pc), s.where, "the input is paid in the input token")
        tot = mk_add(tot, ite(t.pc, t.amount, I(0)))
    S(C, s, tot, inc, "the trader pays exactly the quoted input including fees")
    to_user, to_ref = I(0), I(0)
    for t in outs:
        is_ref = e.same(t.dst, rf, t.pc) and e.implied(s.ref, t.pc)
        if is_ref:
            src = ite(s.fob(), bv, qv)
            to_ref = mk_add(to_ref, ite(t.pc, t.amount, I(0)))
        else:
            src = vout
            C.ob(e.same(t.dst, got, t.pc), s.where, "the output goes to the trader's output account", d("to", t.dst))
            to_user = mk_add(to_user, ite(t.pc, t.amount, I(0)))
        C.ob(e.same(t.src, src, t.pc), s.where, "the referral share leaves the vault the fee is held in" if is_ref else
             "the output leaves the opposite vault", d("from", e.given(t.src, t.pc), "expected", e.given(src, t.pc)))
    S(C, s, to_user, out, "the trader gets exactly the quoted output")
    S(C, s, to_ref, ite(s.ref, s.q("referral_fee"), I(0)), "a referral gets exactly the quoted referral fee")
    # what the quote is asked for
    for i, cs in s.calls.items():
        C.ob(len(cs) == 1, s.where, "one quote per swap mode")
        for q in cs:
            P, cf, am, fm, dr, pt, el = q.a[1:8]
            C.ob(cf is mk("dataref", e.acct(s.c), e.pre(s.c)), s.where, "the quote uses the pool's config")
            pd = P.a[1] if P.op == "dataref" and P.a[0] is e.acct(s.p) else UNDEF
            for f in ("sqrt_price", "activation_point", "base_reserve", "quote_reserve"):
                C.ob(fld(pd, f) is e.pre(s.p, f), s.where, "the quote uses the pool's current state")
            u = s.modes[i]
            S(C, s, am, s.a0, "the quote is for the amount given", u)
            S(C, s, fld(fm, "fees_on_input"), ite(s.fin(), I(1), I(0)), "fees are taken from the input only when buying in quote-fee mode", u)
            S(C, s, fld(fm, "fees_on_base_token"), ite(s.fob(), I(1), I(0)), "fees are in base only when buying in output-fee mode", u)
            S(C, s, fld(fm, "has_referral"), ite(s.ref, I(1), I(0)), "the referral share is split off only for a given referral account", u)
            S(C, s, eq_bit(dr, 0), ite(s.sell, I(1), I(0)), "the trade is a sale exactly when the input token is the base token", u)
            S(C, s, pt, s.point(), "the quote uses the current slot or time as configured", u)


def eq_bit(dr, i):
    return ite(eq(discr_of(dr), I(i)), I(1), I(0))


@prop("C11", floor=20)
@per_swap
def c11(C, s):
    e, p = s.e, s.p
    S(C, s, e.post(p, "base_reserve"), s.reserve("base"), "the base reserve changes by the amount traded, fees excluded")
    S(C, s, e.post(p, "quote_reserve"), s.reserve("quote"), "the quote reserve changes by the amount traded, fees excluded")
    S(C, s, e.post(p, "sqrt_price"), s.q("next_sqrt_price"), "the price becomes the quoted one")
    S(C, s, e.post(p, "has_swap"), I(1), "the pool remembers that it was traded")
    tr, pr = s.q("trading_fee"), s.q("protocol_fee")
    cr = mk_div(mk_mul(tr, e.pre(s.c, "creator_trading_fee_percentage")), I(100))
    fob = s.fob()
    for tok, here in (("base", fob), ("quote", b_not(fob))):
        for who, amt in (("creator", cr), ("partner", mk_sub(tr, cr)), ("protocol", pr)):
            f = "%s_%s_fee" % (who, tok)
            S(C, s, e.post(p, f), mk_add(e.pre(p, f), ite(here, amt, I(0))), "the %s is credited its part of the fee in the fee token" % who)
        for who, amt in (("trading", tr), ("protocol", pr)):
            f = "metrics.total_%s_%s_fee" % (who, tok)
            S(C, s, e.post(p, f), mk_add(e.pre(p, f), ite(here, amt, I(0))), "the lifetime fee totals grow by the fee")
    frame(C, e, p, ("base_reserve", "quote_reserve", "sqrt_price", "has_swap", "creator_base_fee", "creator_quote_fee", "partner_base_fee",
                    "partner_quote_fee", "protocol_base_fee", "protocol_quote_fee", "metrics.total_protocol_base_fee",
                    "metrics.total_protocol_quote_fee", "metrics.total_trading_base_fee", "metrics.total_trading_quote_fee",
                    "finish_curve_timestamp", "migration_progress", "volatility_tracker.last_update_timestamp",
                    "volatility_tracker.sqrt_price_reference", "volatility_tracker.volatility_accumulator",
                    "volatility_tracker.volatility_reference"), "pool")


def vesting(e, c):
    v = lambda f: e.pre(c, "locked_vesting_config." + f)
    total = mk_add(v("cliff_unlock_amount"), mk_mul(v("amount_per_period"), v("number_of_period")))
    return v, total


@prop("C13", floor=12)
@per_swap
def c13(C, s):
    e, p, c = s.e, s.p, s.c
    thr = e.pre(c, "migration_quote_threshold")
    C.ob(e.implied(lt(e.pre(p, "quote_reserve"), thr)), s.where, "no swap once the quote reserve has reached the migration threshold")
    done = s.complete()
    S(C, s, e.post(p, "finish_curve_timestamp"), ite(done, s.ts(), e.pre(p, "finish_curve_timestamp")),
      "the finish time is set exactly when the quote reserve reaches the threshold")
    v, total = vesting(e, c)
    none = TRUE
    for f in ("amount_per_period", "cliff_duration_from_migration_time", "frequency", "number_of_period", "cliff_unlock_amount"):
        none = b_and(none, eq(v(f), I(0)))
    S(C, s, e.post(p, "migration_progress"), ite(done, ite(none, I(2), I(1)), e.pre(p, "migration_progress")),
      "completion leads to the vesting stage exactly when a vesting is configured")
    # the vault must hold what migration, fees and vesting still need
    need = mk_add(e.pre(c, "migration_base_threshold"), total)
    for f in ("partner_base_fee", "protocol_base_fee", "creator_base_fee"):
        need = mk_add(need, e.post(p, f))
    bal = [x for x in subterms(e.ok) if x.op == "fld" and x.a[1] == "amount" and x.a[0].op == "reload" and x.a[0].a[0] is e.acct("base_vault")]
    C.ob(any(e.implied(b_not(lt(b, need)), done) for b in bal), s.where,
         "completion requires the base vault to hold the migration amount, the base fees and the vesting total")
    # ... measured after the tokens have moved
    trs = [t.ev.ret for t in e.transfers]
    for b in bal:
        inside = set(subterms(b))
        C.ob(all(r in inside or ret_in(r, inside) for r in trs[:2]), s.where, "the vault is measured after the transfers")
    ev = e.emits("EvtCurveComplete")
    C.ob(bool(ev), s.where, "completion is announced")
    hit = FALSE
    for x in ev:
        hit = b_or(hit, x.pc)
    C.ob(b_and(e.ok, b_and(done, b_not(hit))) is FALSE and b_and(e.ok, b_and(hit, b_not(done))) is FALSE, s.where,
         "completion is announced exactly when it happens")


def ret_in(r, inside):
    return any(x.op == "call" and x.a[0].endswith(("invoke_signed", "invoke")) for x in inside)


@prop("C26", floor=10)
@per_swap
def c26(C, s):
    e, p, c = s.e, s.p, s.c
    D = lambda f: e.pre(c, "pool_fees.dynamic_fee." + f)
    V = lambda f: e.pre(p, "volatility_tracker." + f)
    on = b_not(eq(D("initialized"), I(0)))
    now = s.ts()
    last = V("last_update_timestamp")
    el = ite(lt(now, last), I(0), mk_sub(now, last))
    stale = b_not(lt(el, D("filter_period")))
    ref = ite(stale, e.pre(p, "sqrt_price"), V("sqrt_price_reference"))
    vref = ite(stale, ite(lt(el, D("decay_period")), mk_div(mk_mul(V("volatility_accumulator"), D("reduction_factor")), I(10000)), I(0)),
               V("volatility_reference"))
    nxt = s.q("next_sqrt_price")
    bins = lambda a, b: mk_div(mk_sub(mk_div(mk_mul(mk_max(a, b), I(1 << 64)), mk_min(a, b)), I(1 << 64)), D("bin_step_u128"))
    acc = mk_min(D("max_volatility_accumulator"), mk_add(vref, mk_mul(bins(nxt, ref), I(20000))))
    crossed = b_not(eq(bins(e.pre(p, "sqrt_price"), nxt), I(0)))
    want = {"sqrt_price_reference": ref, "volatility_reference": vref, "volatility_accumulator": acc,
            "last_update_timestamp": ite(crossed, now, last)}
    what = {"sqrt_price_reference": "the reference price is renewed only after the filter period",
            "volatility_reference": "the volatility reference decays between filter and decay period and is cleared after",
            "volatility_accumulator": "the volatility is the reference plus the price steps moved, capped at the configured maximum",
            "last_update_timestamp": "the update time moves only when the price moved at least one step"}
    for f, w in want.items():
        S(C, s, e.post(p, "volatility_tracker." + f), w, what[f], on)
        S(C, s, e.post(p, "volatility_tracker." + f), V(f), "nothing is tracked while the dynamic fee is off", b_not(on))
    for i, cs in s.calls.items():
        for q in cs:
            pd = q.a[1].a[1] if q.a[1].op == "dataref" else UNDEF
            for f, w in (("sqrt_price_reference", ref), ("volatility_reference", vref), ("volatility_accumulator", V("volatility_accumulator")),
                         ("last_update_timestamp", last)):
                S(C, s, fld(fld(pd, "volatility_tracker"), f), ite(on, w, V(f)), "the fee is quoted from the volatility before this trade", s.modes[i])


# ---------------------------------------------------------------------------------------------------------------------- one swap at a time
OWN = mk("static", CRATE + "::ID")
SYSVAR = b58("Sysvar1nstructions1111111111111111111111111")


def calls_of(t, *names):
    return [x for x in subterms(t) if x.op == "call" and str(x.a[0]).split("::")[-1] in names]


def payload(x):
    return fld(as_var(x, "Ok", 0), "0")


def counter(li, m):
    """the loop counts m up from zero, one at a time"""
    return any(v is m and i is I(0) and same_under(n, mk_add(m, I(1)), li["again"]) for v, i, n in li["mus"])


def swaps_pool(ins, pk):
    """the instruction is a swap of this pool"""
    head = mk("slice", fld(ins, "data"), I(0), I(8), True)
    disc = b_or(*[eq(mk("arr", *[I(b) for b in k]), head) for k in (DISC_SWAP, DISC_SWAP2)])
    return b_and(disc, eq(pk, fld(mk("sel", fld(ins, "accounts"), I(2)), "pubkey")))


def opens_pool(ins, pk):
    head = mk("slice", fld(ins, "data"), I(0), I(8), True)
    disc = b_or(*[eq(mk("arr", *[I(b) for b in k]), head) for k in DISC_INIT])
    return b_and(eq(OWN, fld(ins, "program_id")), b_and(disc, eq(pk, fld(mk("sel", fld(ins, "accounts"), I(5)), "pubkey"))))


def lists_pool(R, ins, pk, cond):
    """cond implies that a search of all the instruction's accounts did not meet the pool"""
    accs = fld(ins, "accounts")
    other = b_not(eq(pk, fld(mk("sel", accs, B.BOUND), "pubkey")))
    for x in subterms(cond):
        if x.op == "exists" and x.a[0] is I(0) and x.a[1] is mk("len", accs) and b_and(b_not(x.a[2]), b_not(other)) is FALSE and \
                b_and(cond, atom_bool(x)) is FALSE:
            return True
    for lid, li in R.loops_info.items():
        for m, _, _ in li["mus"]:
            if not counter(li, m):
                continue
            for x in {x.a[0].a[0] for x in subterms(li["again"]) if x.op == "fld" and x.a[1] == "pubkey" and x.a[0].op == "sel" and x.a[0].a[1] is m}:
                within = lt(m, mk("len", x))
                other = b_not(eq(pk, fld(mk("sel", x, m), "pubkey")))
                if b_and(li["again"], b_not(b_and(within, other))) is FALSE and \
                        b_and(cond, lt(m, mk("len", fld(ins, "accounts")))) is FALSE:
                    return True
    return False


@prop("C24", floor=20)
@per_swap
def c24(C, s):
    e, p, c = s.e, s.p, s.c
    base = lambda f: e.pre(c, "pool_fees.base_fee." + f)
    zero = b_and(b_and(eq(base("first_factor"), I(0)), eq(base("second_factor"), I(0))), eq(base("third_factor"), I(0)))
    late = lt(mk_add(e.pre(p, "activation_point"), base("second_factor")), s.point())
    on = b_and(b_and(s.buy, eq(base("base_fee_mode"), I(2))), b_and(b_not(zero), b_not(late)))
    pk = e.key_of(p)
    # --- while the limiter applies
    idx = {x for x in calls_of(e.ok, "load_current_index_checked")}
    C.ob(len(idx) == 1, s.where, "the place of this instruction is read from the checked instruction list")
    at = payload(idx.pop()) if idx else UNDEF
    loads = calls_of(e.ok, "load_instruction_at_checked")
    mine = [payload(x) for x in loads if x.a[1] is at]
    C.ob(len(set(mine)) == 1, s.where, "the program that was called is read from the checked instruction list")
    direct = eq(OWN, fld(mine[0], "program_id")) if mine else FALSE
    nested = b_and(on, b_not(direct))
    ok = e.ok
    never = lambda x: b_and(ok, x) is FALSE
    C.ob(not never(on), s.where, "swaps under the limiter are possible")
    C.ob(any(never(b_and(nested, b_not(lt(x, I(3))))) for x in calls_of(ok, "get_stack_height")), s.where,
         "called from another program, a limited swap is at most one level deep")
    sib, earlier = False, False
    for lid, li in e.R.loops_info.items():
        for m, _, _ in li["mus"]:
            if not counter(li, m):
                continue
            for x in calls_of(li["again"], "get_processed_sibling_instruction"):
                ins = fld(as_var(x, "Some", 1), "0")
                some = atom_bool(mk("is", x, "Some"))
                bad = b_and(eq(OWN, fld(ins, "program_id")), swaps_pool(ins, pk))
                if x.a[1] is m and b_and(li["again"], b_or(b_not(some), bad)) is FALSE and never(b_and(nested, some)):
                    sib = True
            for x in calls_of(li["again"], "load_instruction_at_checked"):
                if x.a[1] is not m:
                    continue
                ins = payload(x)
                own = eq(OWN, fld(ins, "program_id"))
                more = lt(m, at)
                first = eq(at, I(0))
                if b_and(li["again"], b_or(b_not(more), b_and(own, swaps_pool(ins, pk)))) is FALSE and \
                        never(b_and(on, b_and(more, b_not(first)))) and \
                        lists_pool(e.R, ins, pk, b_and(li["again"], b_not(own))):
                    earlier = True
    C.ob(sib, s.where, "called from another program, a limited swap follows no other swap of the pool there")
    C.ob(earlier, s.where, "a limited swap follows no instruction of the transaction that swaps the pool or, from another program, names it")
    # --- the first swap may pay the lowest fee
    enabled = eq(e.pre(c, "enable_first_swap_with_min_fee"), I(1))
    fresh = eq(e.pre(p, "has_swap"), I(0))
    for i, qs in s.calls.items():
        for q in qs:
            elig = as_bool(q.a[-1])
            live = b_and(ok, s.modes[i])
            if live is FALSE:
                continue
            good = b_and(live, elig)
            C.ob(good is not FALSE, s.where, "a first swap with the lowest fee is possible")
            fail = lambda x: b_and(good, b_not(x)) is FALSE
            C.ob(fail(enabled), s.where, "the lowest fee is for configs that offer it")
            C.ob(fail(fresh), s.where, "the lowest fee is for a pool's first swap")
            C.ob(fail(b_not(s.ref)), s.where, "the lowest fee is for swaps without a referral")
            C.ob(fail(direct), s.where, "the lowest fee is for swaps called directly")
            accs = {x.a[2] for x in loads if x.a[1] is at}
            C.ob(any(fail(eq(pubkey(SYSVAR), mk("key", x))) for x in accs), s.where, "the instruction list is the runtime's own")
            found = False
            for lid, li in e.R.loops_info.items():
                for m, _, _ in li["mus"]:
                    for x in calls_of(li["again"], "load_instruction_at_checked"):
                        if x.a[1] is not m or not counter(li, m):
                            continue
                        opens = opens_pool(payload(x), pk)
                        end = b_and(good, b_not(li["again"]))
                        there = b_not(lt(mk("len", fld(payload(x), "accounts")), I(6)))
                        if b_and(end, b_not(b_and(lt(m, at), opens))) is FALSE and b_and(li["again"], b_and(opens, there)) is FALSE:
                            found = True
            C.ob(found, s.where, "the lowest fee is for swaps after the pool's launch in the same transaction")
    C.ob(e.same(e.post(p, "has_swap"), I(1)), s.where, "a swap is remembered")
