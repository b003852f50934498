"""Quoting a trade: which fee is taken from what, and the walk along the price curve."""
from . import prop
from .common import *
from ..engine import ref, Root

DIRT = CRATE + "::params::swap::TradeDirection"
FMT = CRATE + "::state::fee::FeeMode"
ROUND = CRATE + "::math::u128x128_math::Rounding"
CURVE = CRATE + "::curve::"
FEES = CRATE + "::state::config::PoolFeesConfig::"

BOUND = tuple("curve::" + n for n in (
    "get_delta_amount_base_unsigned", "get_delta_amount_quote_unsigned", "get_delta_amount_base_unsigned_256",
    "get_delta_amount_quote_unsigned_256", "get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output")) + tuple(
    "PoolFeesConfig::" + n for n in (
        "get_fee_on_amount", "get_included_fee_amount", "split_fees", "get_total_fee_numerator_from_included_fee_amount",
        "get_total_fee_numerator_from_excluded_fee_amount", "get_min_base_fee_numerator"))

UP, DOWN = adt(ROUND, "Up", 0, ()), adt(ROUND, "Down", 1, ())


def okv(fn, *args):
    return fld(as_var(mk("call", fn, *args), "Ok", 0), "0")


class Quote:
    """one quoting function, for one direction and one side the fee is taken from"""

    def __init__(self, C, kind, buy, fees_in):
        self.kind, self.buy, self.fees_in = kind, buy, fees_in
        a = [None] * 7
        a[4] = adt(DIRT, "QuoteToBase" if buy else "BaseToQuote", 1 if buy else 0, ())
        self.hasref = mk("sym", "has_referral")
        a[3] = ref(Root("C", adt(FMT, "FeeMode", 0, (("fees_on_input", I(1 if fees_in else 0)), ("fees_on_base_token", mk("sym", "fob")),
                                                      ("has_referral", self.hasref)))))
        self.f = f = C.fn("VirtualPool::get_swap_result_from_" + kind, args=a, boundary=BOUND)
        self.where = "function `%s` (%s, fee taken from the %s)" % (
            f.path, "buying" if buy else "selling", "input" if fees_in else "output")
        self.dir = a[4]
        self.pool, self.cfg = mk("deref", mk("sym", "p0")), mk("deref", mk("sym", "p1"))
        self.amount, self.point, self.elig = mk("sym", "p2"), mk("sym", "p5"), as_bool(mk("sym", "p6"))
        self.pf = fld(self.cfg, "pool_fees")
        self.ok, self.val = f.ok, f.val

    def same(self, a, b, under=None):
        return a is b or same_under(a, b, self.ok if under is None else b_and(self.ok, under))

    def implied(self, c):
        return b_and(self.ok, b_not(c)) is FALSE

    # --- fees
    def num(self, which, amount):
        t = okv(FEES + "get_total_fee_numerator_from_%s_fee_amount" % which, self.pf, fld(self.pool, "volatility_tracker"), self.point,
                fld(self.pool, "activation_point"), amount, self.dir)
        return ite(self.elig, okv(FEES + "get_min_base_fee_numerator", self.pf), t)

    def fee_on(self, num, amount):
        return okv(FEES + "get_fee_on_amount", self.pf, num, amount, self.refarg())

    def split(self, fee):
        r = okv(FEES + "split_fees", self.pf, fee, self.refarg())
        return fld(r, "0"), fld(r, "1"), fld(r, "2")

    def incl(self, num, amount):
        r = okv(FEES + "get_included_fee_amount", num, amount)
        return fld(r, "0"), fld(r, "1")

    def refarg(self):
        return ite(as_bool(self.hasref), I(1), I(0))

    # --- curve
    def px(self, i):
        return fld(sel(fld(self.cfg, "curve"), i), "sqrt_price")

    def liq(self, i):
        return fld(sel(fld(self.cfg, "curve"), i), "liquidity")

    def delta(self, tok, lo, hi, l, rnd, wide=False):
        return okv(CURVE + "get_delta_amount_%s_unsigned%s" % (tok, "_256" if wide else ""), lo, hi, l, rnd)

    def nextp(self, side, p, l, a, sell):
        return okv(CURVE + "get_next_sqrt_price_from_" + side, p, l, a, I(1 if sell else 0))


class Unrecognised(Exception):
    pass


def roles(q, start):
    """the loop that walks the curve and its state: price, amount left, total so far, segment index"""
    info = list(getattr(q.f.R, "loops_info", {}).values())
    if len(info) != 1:
        raise Unrecognised("%d loops" % len(info))
    L = info[0]
    mus = L["mus"]
    curve = fld(q.cfg, "curve")
    price = [m for m in mus if m[1] is fld(q.pool, "sqrt_price")]
    if len(price) != 1:
        raise Unrecognised("state of the walk")
    ix = {s.a[0].a[1] for s in subterms((L["again"], tuple(m[2] for m in mus)))
          if s.op == "fld" and s.a[1] == "sqrt_price" and s.a[0].op == "sel" and s.a[0].a[0] is curve}
    ix = sorted((t for t in ix if not is_int(t)), key=lambda t: t.id)
    if not ix:
        raise Unrecognised("state of the walk")
    q.picks = len(ix)
    t = ix[q.pick]
    inside = [m for m in mus if any(s is m[0] for s in subterms(t))]
    rest = [m for m in mus if m not in inside and m is not price[0]]
    left = [m for m in rest if m[1] is start] or [m for m in rest if m[1] is not I(0)]
    rest = [m for m in rest if m not in left]
    if len(inside) != 1 or len(left) != 1 or len(rest) != 1:
        raise Unrecognised("state of the walk")
    return L, price[0], left[0], rest[0], inside[0], t


def subst(t, m, v):
    return remake_with(t, m, v)


def remake_with(t, m, v, memo=None):
    memo = {} if memo is None else memo
    if t is m:
        return v
    if t in memo:
        return memo[t]
    if not any(s is m for s in subterms(t)):
        memo[t] = t
        return t
    memo[t] = r = remake(t, lambda k: remake_with(k, m, v, memo))
    return r


def walk(C, q, start):
    """the walk's own obligations; returns (price reached, amount left, total) as specified"""
    L, P, A, O, X, t = roles(q, start)
    p, a, o = P[0], A[0], O[0]
    cond = lambda s: "the walk along the curve: " + s
    sell = not q.buy
    inside = lt(t, I(20)) if q.buy else b_not(lt(t, I(0)))
    px, li = q.px(t), q.liq(t)
    set_ = b_and(b_not(eq(px, I(0))), b_not(eq(li, I(0))))
    exact_out = q.kind == "exact_output"
    stop = fld(q.cfg, "migration_sqrt_price")
    if q.buy:
        bound = px if exact_out else mk_min(stop, px)
        seg = li
        crosses = lt(p, bound)
    else:
        bound = px
        seg = q.liq(mk_add(t, I(1)))
        crosses = lt(bound, p)
    lo_hi = (lambda x: (p, x)) if q.buy else (lambda x: (x, p))
    given_tok, got_tok = ("quote", "base") if q.buy else ("base", "quote")
    if exact_out:
        # the amount left is of the token paid out; the total is what must be paid in
        cap = q.delta(got_tok, *lo_hi(bound), seg, DOWN, wide=True)
        part_price = q.nextp("output", p, seg, a, sell)
        gain = lambda x, l=seg: q.delta(given_tok, *lo_hi(x), l, UP)
    else:
        cap = q.delta(given_tok, *lo_hi(bound), seg, UP, wide=True)
        part_price = q.nextp("input", p, seg, a, sell)
        gain = lambda x, l=seg: q.delta(got_tok, *lo_hi(x), l, DOWN)
    part = lt(a, cap)
    go = b_and(b_and(inside, set_), crosses)
    ends = b_and(go, part)
    again = L["again"]

    def S(x, y, c, rule, *det):
        C.ob(x is y or same_under(x, y, c), q.where, cond(rule), d(*det) if det else "")

    S(A[1], start, TRUE, "starts with the amount given", "amount", A[1])
    S(O[1], I(0), TRUE, "starts with nothing on the other side", "total", O[1])
    # order of the segments
    first, step = (I(0), I(1)) if q.buy else (I(18), I(-1))
    S(subst(t, X[0], X[1]), first, TRUE, "starts at the %s segment" % ("first" if q.buy else "last"))
    S(subst(t, X[0], X[2]), mk_add(t, step), again, "goes on to the adjacent segment")
    # one full step
    S(P[2], ite(go, bound, p), again, "a full step ends at the segment's bound", "price", P[2])
    S(A[2], mk_sub(a, ite(go, cap, I(0))), again, "a full step uses up the segment's capacity, rounded in the pool's favour", "left", A[2])
    S(O[2], mk_add(o, ite(go, gain(bound), I(0))), again, "a full step adds the segment's amount, rounded in the pool's favour", "total", O[2])
    # when it goes on and when it stops
    cont = b_and(inside, b_not(ends)) if sell else b_and(b_and(inside, set_), b_not(ends))
    C.ob(b_and(again, b_not(cont)) is FALSE, q.where, cond("goes on only while liquidity and amount remain"))
    must = cont if (sell or exact_out) else b_and(cont, b_not(b_and(go, eq(bound, stop))))
    C.ob(b_and(q.ok, must) is FALSE, q.where, cond("stops only when the amount is used up or the curve ends"))
    if q.buy:
        price = ite(go, ite(part, part_price, bound), p)
        left = ite(go, ite(part, I(0), mk_sub(a, cap)), a)
        total = mk_add(o, ite(go, gain(price), I(0)))
        if exact_out:
            C.ob(b_and(q.ok, b_not(eq(left, I(0)))) is FALSE, q.where, cond("no more is paid out than the curve sells"))
        return price, left, total
    low, l0 = fld(q.cfg, "sqrt_start_price"), q.liq(I(0))
    none = eq(a, I(0))
    if exact_out:
        np0 = q.nextp("output", p, l0, a, sell)
        cap0 = q.delta(got_tok, low, p, l0, DOWN, wide=True)
        C.ob(b_and(q.ok, b_and(b_and(b_not(ends), b_not(none)), lt(cap0, a))) is FALSE, q.where,
             cond("no more is paid out than the last segment holds"))
        last, left0 = np0, I(0)
    else:
        np0 = q.nextp("input", p, l0, a, sell)
        last = mk_max(np0, low)
        left0 = ite(lt(np0, low), mk_sub(a, q.delta(given_tok, low, p, l0, UP)), I(0))
    price = ite(ends, part_price, ite(none, p, last))
    left = ite(ends, I(0), ite(none, I(0), left0))
    total = mk_add(o, ite(ends, gain(part_price), ite(none, I(0), gain(last, l0))))
    return price, left, total


CASES = [(k, b, f) for k in ("exact_input", "partial_input", "exact_output") for b in (False, True) for f in (False, True)]


def spec(C, q):
    """the specified result of the quote, as {field: term}"""
    A = q.amount
    r = {}
    if q.kind == "exact_output":
        if q.fees_in:
            start = A
        else:
            inc, fee = q.incl(q.num("excluded", A), A)
            start = inc
        price, left, total = walk(C, q, start)
        if q.fees_in:
            inc, fee = q.incl(q.num("excluded", total), total)
        tr, pr, rf = q.split(fee)
        r.update(amount_left=I(0), included_fee_input_amount=inc if q.fees_in else total, excluded_fee_input_amount=total,
                 output_amount=A, next_sqrt_price=price, trading_fee=tr, protocol_fee=pr, referral_fee=rf)
        return r
    n = q.num("included", A)
    if q.fees_in:
        F = q.fee_on(n, A)
        start = fld(F, "amount")
    else:
        start = A
    price, left, total = walk(C, q, start)
    if not q.fees_in:
        F = q.fee_on(n, total)
    fees = [fld(F, x) for x in ("trading_fee", "protocol_fee", "referral_fee")]
    out = total if q.fees_in else fld(F, "amount")
    inc, exc = A, start
    if q.kind == "partial_input":
        some = b_not(eq(left, I(0)))
        exc = mk_sub(start, left)
        if q.fees_in:
            i2, f2 = q.incl(q.num("excluded", exc), exc)
            inc = ite(some, i2, A)
            fees = [ite(some, x, y) for x, y in zip(q.split(f2), fees)]
        else:
            inc = exc
    r.update(amount_left=left, included_fee_input_amount=inc, excluded_fee_input_amount=exc, output_amount=out, next_sqrt_price=price,
             trading_fee=fees[0], protocol_fee=fees[1], referral_fee=fees[2])
    return r


class Trial:
    """obligations collected under one reading of the loop (which term is the segment index)"""

    def __init__(self):
        self.obs, self.bad = [], 0

    def ob(self, ok, where, rule, det=""):
        self.obs.append((ok, where, rule, det))
        self.bad += not ok


def quoted(C, q):
    want = spec(C, q)
    for k, v in want.items():
        got = fld(q.val, k)
        C.ob(q.same(got, v), q.where, "the quoted %s is the specified one" % k, d("got", got, "expected", v))
    if q.kind == "exact_input":
        C.ob(q.implied(eq(want["amount_left"], I(0))), q.where, "an exact-input quote uses up the whole input")
    if q.kind == "exact_output":
        C.ob(q.implied(b_not(lt(fld(q.cfg, "migration_sqrt_price"), want["next_sqrt_price"]))), q.where,
             "an exact-output quote never passes the migration price")


@prop("C14", floor=60)
def c14(C):
    def f(C, case):
        q = Quote(C, *case)
        best = None
        q.pick, q.picks = 0, 1
        while q.pick < q.picks:
            t = Trial()
            try:
                quoted(t, q)
                if best is None or t.bad < best.bad:
                    best = t
            except Unrecognised as e:
                why = e
            q.pick += 1
        if best is None:
            C.L.undecided.append("%s: %s not recognised" % (q.where, why))
            return
        for a in best.obs:
            C.ob(*a)
    C.each(CASES, f)


def deltas(q):
    """every amount computed along the way: (token, rounding term, call)"""
    info = list(getattr(q.f.R, "loops_info", {}).values())
    seen = set()
    for s in subterms((q.val, q.ok, tuple(tuple(m) for L in info for m in L["mus"]), tuple(L["again"] for L in info))):
        if s.op == "call" and "::get_delta_amount_" in s.a[0] and s not in seen:
            seen.add(s)
            yield ("base" if "_base_" in s.a[0] else "quote"), s.a[4], s


@prop("C15", floor=60)
def c15(C):
    def f(C, case):
        if case == "formulas":
            return formulas(C)
        q = Quote(C, *case)
        n = 0
        for tok, r, s in deltas(q):
            n += 1
            # what the trader gives is rounded up, what the trader gets is rounded down
            want = UP if (tok == "quote") == q.buy else DOWN
            C.ob(r is want, q.where, "%s amounts are rounded %s when %s" % (tok, "up" if want is UP else "down", "buying" if q.buy else "selling"),
                 d("call", s))
        C.ob(n >= 2, q.where, "amounts are computed from price differences")
    C.each(["formulas"] + CASES, f)


def formulas(C):
    lo, hi, l, up = mk("sym", "p0"), mk("sym", "p1"), mk("sym", "p2"), eq(discr_of(mk("sym", "p3")), I(0))
    two128 = I(1 << 128)
    dp = mk_mul(l, mk_sub(hi, lo))

    for suf in ("", "_256"):
        f = C.fn("curve::get_delta_amount_base_unsigned" + suf)
        rnd = round_up(f)
        w = ite(rnd, mk_divc(dp, mk_mul(lo, hi)), mk_div(dp, mk_mul(lo, hi)))
        C.ob(same_under(f.val, w, f.ok), f.where(), "base amount = liquidity * (1/lower - 1/upper), rounded as asked", d("got", f.val, "expected", w))
        f = C.fn("curve::get_delta_amount_quote_unsigned" + suf)
        rnd = round_up(f)
        w = ite(rnd, mk_divc(dp, two128), mk_div(dp, two128))
        C.ob(same_under(f.val, w, f.ok), f.where(), "quote amount = liquidity * (upper - lower), rounded as asked", d("got", f.val, "expected", w))
    p, l, a = mk("sym", "p0"), mk("sym", "p1"), mk("sym", "p2")
    for side in ("input", "output"):
        f = C.fn("curve::get_next_sqrt_price_from_" + side)
        base = as_bool(mk("sym", "p3"))
        if side == "input":
            w = ite(base, ite(eq(a, I(0)), p, mk_divc(mk_mul(p, l), mk_add(l, mk_mul(a, p)))), mk_add(p, mk_div(mk_mul(a, two128), l)))
            rule = "the price after an input moves no further than the input pays for"
        else:
            w = ite(base, mk_sub(p, mk_divc(mk_mul(a, two128), l)), ite(eq(a, I(0)), p, mk_divc(mk_mul(p, l), mk_sub(l, mk_mul(a, p)))))
            rule = "the price after an output moves at least as far as the output costs"
        C.ob(same_under(f.val, w, f.ok), f.where(), rule, d("got", f.val, "expected", w))
        C.ob(b_and(f.ok, eq(l, I(0))) is FALSE, f.where(), "fails without liquidity")
        C.ob(b_and(f.ok, eq(p, I(0))) is FALSE, f.where(), "fails without a price")
    f = C.fn("curve::get_initialize_amounts", boundary=BOUND)
    a0, a1, a2, a3 = [mk("sym", "p%d" % i) for i in range(4)]
    w = (okv(CURVE + "get_delta_amount_base_unsigned", a2, a1, a3, UP), okv(CURVE + "get_delta_amount_quote_unsigned", a0, a2, a3, UP))
    for i in (0, 1):
        C.ob(same_under(fld(f.val, str(i)), w[i], f.ok), f.where(), "deposits for a position are rounded up", d("got", fld(f.val, str(i))))


def round_up(f):
    for s in subterms((f.val, f.ok)):
        if s.op == "ite" and s.a[0].op in ("is", "isvar", "eq") and any(x is mk("sym", "p3") for x in subterms(s.a[0])):
            return b_not(atom_bool(s.a[0])) if "Down" in show(s.a[0]) else atom_bool(s.a[0])
    raise Undecided("rounding choice of " + f.where())
