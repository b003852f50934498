"""Fee arithmetic: the fee rate at a point in time, the fee on an amount and its parts."""
from . import prop
from .common import *
from .swapmath import DIRT, okv
from ..engine import ref, Root

ST = CRATE + "::state::config::"
FMODE = "FeeMode::get_fee_mode"
E9 = 10 ** 9
MAXFEE = 990_000_000
ONE64 = 1 << 64
OPQ = ("fee_math::pow", "utils_math::sqrt_u256")


def fees_adt(mode, first=None):
    bf = adt(ST + "BaseFeeConfig", "BaseFeeConfig", 0, (
        ("cliff_fee_numerator", mk("sym", "cliff")), ("second_factor", mk("sym", "second")), ("third_factor", mk("sym", "third")),
        ("first_factor", first or mk("sym", "first")), ("base_fee_mode", I(mode)), ("padding_0", mk("sym", "pad"))))
    return ref(Root("C", adt(ST + "PoolFeesConfig", "PoolFeesConfig", 0, (("base_fee", bf), ("dynamic_fee", mk("sym", "dyn"))))))


CL, FIRST, SECOND, THIRD, DYN = [mk("sym", x) for x in ("cliff", "first", "second", "third", "dyn")]


def direction(buy):
    return adt(DIRT, "QuoteToBase" if buy else "BaseToQuote", 1 if buy else 0, ())


def dynamic():
    vt = fld(mk("deref", mk("sym", "p1")), "volatility_accumulator")
    x = mk_mul(vt, fld(DYN, "bin_step"))
    v = mk_div(mk_add(mk_mul(mk_mul(x, x), fld(DYN, "variable_fee_control")), I(99_999_999_999)), I(100_000_000_000))
    return ite(eq(fld(DYN, "initialized"), I(0)), I(0), v)


def by_period(mode, n, powt):
    if mode == 0:
        return mk_sub(CL, mk_mul(THIRD, n))
    return mk_div(mk_mul(CL, powt(n)), I(ONE64))


def powof(n):
    base = mk_sub(I(ONE64), mk_div(mk_mul(THIRD, I(ONE64)), I(10000)))
    return fld(as_var(mk("call", CRATE + "::math::fee_math::pow", base, n), "Some", 1), "0")


def decayed(n):
    """the cliff fee after n exponential steps: square and multiply, each product rounded down to 1/2^64"""
    sq, r = mk_sub(I(ONE64), mk_div(mk_mul(THIRD, I(ONE64)), I(10000))), I(ONE64)
    while True:
        if n & 1:
            r = mk_div(mk_mul(r, sq), I(ONE64))
        n >>= 1
        if not n:
            return mk_div(mk_mul(CL, r), I(ONE64))
        sq = mk_div(mk_mul(sq, sq), I(ONE64))


def periods(C):
    if C.thorough:
        return range(1 << 16)
    two = {1 << a | 1 << b for a in range(16) for b in range(16)}
    return sorted(set(range(512)) | two | {0xffff ^ x for x in two})


def limiter_formula(x):
    """fee rate of an input x under the rate limiter: the fee grows by one increment per reference amount"""
    i = mk_div(mk_mul(FIRST, I(E9)), I(10000))
    over = mk_sub(x, THIRD)
    a, b = mk_div(over, THIRD), mk_rem(over, THIRD)
    mx = mk_div(mk_sub(I(MAXFEE), CL), i)

    def upto(n):
        return mk_mul(THIRD, mk_add(mk_add(CL, mk_mul(CL, n)), mk_div(mk_mul(mk_mul(i, n), mk_add(n, I(1))), I(2))))
    low = mk_add(upto(a), mk_mul(b, mk_add(CL, mk_mul(i, mk_add(a, I(1))))))
    high = mk_add(upto(mx), mk_mul(mk_add(mk_mul(mk_sub(a, mx), THIRD), b), I(MAXFEE)))
    fee = mk_divc(ite(lt(a, mx), low, high), I(E9))
    return ite(lt(THIRD, x), mk_divc(mk_mul(fee, I(E9)), x), CL)


def capped(x):
    return ite(lt(I(MAXFEE), x), I(MAXFEE), x)


def eqv(C, f, got, want, rule, under=None):
    c = f.ok if under is None else b_and(f.ok, under)
    C.ob(same_under(got, want, c), f.where(), rule, d("got", given(got, c), "expected", given(want, c)))


NAMES = {"fraction": "PoolFeesConfig::get_total_fee_numerator_from_%s_fee_amount"}


@prop("C25", floor=15)
def c25(C):
    def f(C, case):
        kind, mode, buy = case
        x, now, act = mk("sym", "p4"), mk("sym", "p2"), mk("sym", "p3")
        if kind == "steps":
            base = mk_sub(I(ONE64), mk_div(mk_mul(THIRD, I(ONE64)), I(10000)))
            for n in list(periods(C))[mode::buy]:
                f = C.fn("PoolFeesConfig::get_min_base_fee_numerator", args=[fees_adt(1, I(n))], pc=lt(base, I(ONE64)))
                eqv(C, f, f.val, decayed(n), "an exponential schedule multiplies the fee by (1 - reduction) once per period")
            return
        if kind == "min":
            f = C.fn("PoolFeesConfig::get_min_base_fee_numerator", args=[fees_adt(mode)], boundary=OPQ)
            want = CL if mode == 2 else by_period(mode, FIRST, powof)
            eqv(C, f, f.val, want, "the minimum base fee is the fee after the last period")
            return
        f = C.fn("PoolFeesConfig::get_total_fee_numerator_from_%s_fee_amount" % kind,
                 args=[fees_adt(mode), None, None, None, None, direction(buy)], boundary=OPQ)
        C.ob(b_and(f.ok, lt(I(MAXFEE), f.val)) is FALSE, f.where(), "the total fee never exceeds the maximum of 99%")
        if mode < 2:
            n = mk_min(FIRST, mk_div(mk_sub(now, act), SECOND))
            want = ite(eq(SECOND, I(0)), CL, by_period(mode, n, powof))
            eqv(C, f, f.val, capped(mk_add(want, dynamic())), "the fee follows the configured schedule, plus the dynamic fee, capped")
            C.ob(b_and(b_and(f.ok, b_not(eq(SECOND, I(0)))), lt(now, act)) is FALSE, f.where(), "no fee is quoted before the activation point")
            return
        zero = b_and(b_and(eq(THIRD, I(0)), eq(SECOND, I(0))), eq(FIRST, I(0)))
        late = lt(mk_add(act, SECOND), now)
        on = b_and(b_not(zero), b_not(late)) if buy else FALSE
        flat = capped(mk_add(CL, dynamic()))
        eqv(C, f, f.val, flat, "outside the limiter window, and for sales, the base fee is the cliff fee", b_not(on))
        if buy and kind == "included":
            eqv(C, f, f.val, capped(mk_add(limiter_formula(x), dynamic())), "inside the limiter window the fee grows with the amount bought", on)
        if buy and kind == "excluded":
            on = b_and(on, b_not(eq(THIRD, I(0))))

            def net(v):
                return mk_sub(v, mk_divc(mk_mul(v, limiter_formula(v)), I(E9)))
            small = b_not(lt(net(THIRD), x))
            eqv(C, f, f.val, flat, "inside the limiter window an output worth at most the reference amount pays the cliff fee", b_and(on, small))
            bad = b_and(b_and(f.ok, b_and(b_and(on, b_not(small)), eq(fld(DYN, "initialized"), I(0)))), lt(f.val, capped(CL)))
            for a in {t.a[0] for t in subterms(bad) if t.op == "ite"}:     # a single amount has its own, closed formula
                if a.op == "eq" and any(t is x for t in subterms(a)):
                    bad = cof(bad, a, False)
            C.ob(bad is FALSE, f.where(), "inside the limiter window an exact-output trade never pays less than the cliff fee")
    C.each([("min", m, False) for m in (0, 1, 2)] +
           [(k, m, b) for k in ("included", "excluded") for m in (0, 1, 2) for b in (False, True)] + [("steps", i, 8) for i in range(8)], f)


@prop("C12", floor=12)
def c12(C):
    def parts(C, f, fee, has, tr, pr, rf, rule):
        p = mk_div(mk_mul(fee, I(20)), I(100))
        r = ite(has, mk_div(mk_mul(p, I(20)), I(100)), I(0))
        eqv(C, f, tr, mk_sub(fee, p), rule + ": four fifths stay with partner and creator")
        eqv(C, f, rf, r, rule + ": a fifth of the protocol's part goes to a given referral")
        eqv(C, f, pr, mk_sub(p, r), rule + ": the protocol keeps the rest of its fifth")
        C.ob(same_under(mk_add(mk_add(tr, pr), rf), fee, f.ok), f.where(), rule + ": the parts add up to the fee")

    def f(C, case):
        if case == "on":
            f = C.fn("PoolFeesConfig::get_fee_on_amount")
            num, amt, has = mk("sym", "p1"), mk("sym", "p2"), as_bool(mk("sym", "p3"))
            fee = mk_divc(mk_mul(amt, num), I(E9))
            eqv(C, f, fld(f.val, "amount"), mk_sub(amt, fee), "the fee is the rate times the amount, rounded up")
            parts(C, f, fee, has, fld(f.val, "trading_fee"), fld(f.val, "protocol_fee"), fld(f.val, "referral_fee"), "fee on an amount")
        elif case == "split":
            f = C.fn("PoolFeesConfig::split_fees")
            parts(C, f, mk("sym", "p1"), as_bool(mk("sym", "p2")), fld(f.val, "0"), fld(f.val, "1"), fld(f.val, "2"), "split of a fee")
        elif case == "incl":
            f = C.fn("PoolFeesConfig::get_included_fee_amount")
            num, ex = mk("sym", "p0"), mk("sym", "p1")
            g = mk_divc(mk_mul(ex, I(E9)), mk_sub(I(E9), num))
            eqv(C, f, fld(f.val, "0"), g, "an amount is grossed up by its fee, rounded up")
            eqv(C, f, fld(f.val, "1"), mk_sub(g, ex), "the fee is the grossed-up amount minus the net amount")
        elif case == "partner":
            f = C.fn("PoolConfig::split_partner_and_creator_fee")
            pct, fee = fld(mk("deref", mk("sym", "p0")), "creator_trading_fee_percentage"), mk("sym", "p1")
            cr = mk_div(mk_mul(fee, pct), I(100))
            eqv(C, f, fld(f.val, "creator_fee"), cr, "the creator gets its percentage of the trading fee, rounded down")
            eqv(C, f, fld(f.val, "partner_fee"), mk_sub(fee, cr), "the partner gets the rest of the trading fee")
        else:
            buy = case == "mode buy"
            f = C.fn("FeeMode::get_fee_mode", args=[None, direction(buy), None])
            m = mk("sym", "p0")
            C.ob(b_and(f.ok, lt(I(1), m)) is FALSE or b_and(f.ok, b_not(b_or(eq(m, I(0)), eq(m, I(1))))) is FALSE, f.where(),
                 "an unknown fee collection mode is rejected")
            one = lambda c: ite(c, I(1), I(0))
            eqv(C, f, fld(f.val, "fees_on_input"), one(eq(m, I(0)) if buy else FALSE), "fees come out of the input only when buying in quote-fee mode")
            eqv(C, f, fld(f.val, "fees_on_base_token"), one(eq(m, I(1)) if buy else FALSE), "fees are in base only when buying in output-fee mode")
            eqv(C, f, fld(f.val, "has_referral"), one(as_bool(mk("sym", "p2"))), "a referral is passed on")
    C.each(["on", "split", "incl", "partner", "mode buy", "mode sell"], f)
