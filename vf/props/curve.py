"""What follows from a curve: the migration price, the base tokens it sells, the tokens reserved for trading (C37)."""
from . import prop
from .common import *
from .swapmath import okv, subst, UP, CURVE

LD = "liquidity_distribution::"
STEPS = ("curve::get_delta_amount_base_unsigned_256", "curve::get_delta_amount_quote_unsigned_256", "curve::get_next_sqrt_price_from_input")
MAX_PRICE = 79226673521066979257578248091


class Unrecognised(Exception):
    pass


def curve_of(f, i):
    """the curve parameter, read through its reference"""
    return mk("deref", f.args[i])


def pt(curve, i, what):
    return fld(sel(curve, i), what)


def delta(tok, lo, hi, l):
    return okv(CURVE + "get_delta_amount_%s_unsigned_256" % tok, lo, hi, l, UP)


def the_loop(f, curve):
    info = list(getattr(f.R, "loops_info", {}).values())
    if len(info) != 1:
        raise Unrecognised("%d loops" % len(info))
    L = info[0]
    idx = {s.a[0].a[1] for s in subterms(L["again"])
           if s.op == "fld" and s.a[1] == "liquidity" and s.a[0].op == "sel" and s.a[0].a[0] is curve}
    idx = [t for t in idx if not is_int(t)]
    if len(idx) != 1:
        raise Unrecognised("index of the walk")
    t = idx[0]
    inside = [m for m in L["mus"] if any(s is m[0] for s in subterms(t))]
    if len(inside) != 1:
        raise Unrecognised("index of the walk")
    k = subst(t, inside[0][0], inside[0][1])
    if not is_int(k):
        raise Unrecognised("start of the walk")
    return L, t, inside[0], k.a[0]


def same(f, a, b, c=None):
    return a is b or same_under(a, b, f.ok if c is None else c)


def threshold_price(C):
    f = C.fn(LD + "get_migration_threshold_price", boundary=STEPS)
    thr, start, curve = f.args[0], f.args[1], curve_of(f, 2)
    w = f.where()
    L, t, X, k = the_loop(f, curve)
    cap = lambda p, i: delta("quote", p, pt(curve, i, "sqrt_price"), pt(curve, i, "liquidity"))
    nxt = lambda p, i, a: okv(CURVE + "get_next_sqrt_price_from_input", p, pt(curve, i, "liquidity"), a, I(0))
    # the segments walked before the loop
    p, a, before = start, thr, []
    for j in range(k):
        before.append((lt(a, cap(p, I(j))), nxt(p, I(j), a)))
        p, a = pt(curve, I(j), "sqrt_price"), mk_sub(a, cap(p, I(j)))
    price = [m for m in L["mus"] if same(f, m[1], p)]
    left = [m for m in L["mus"] if same(f, m[1], a)]
    if len(price) != 1 or len(left) != 1 or price[0] is left[0]:
        raise Unrecognised("state of the walk")
    P, A = price[0], left[0]
    go = lt(t, mk("len", curve))
    part = lt(A[0], cap(P[0], t))
    walk = TRUE
    for c, _ in before:
        walk = b_and(walk, b_not(c))
    again = L["again"]
    C.ob(b_and(again, b_not(b_and(go, b_not(part)))) is FALSE, w, "goes on only through segments the amount left fills")
    C.ob(same(f, P[2], pt(curve, t, "sqrt_price"), again), w, "a filled segment ends at its price", d("price", P[2]))
    C.ob(same(f, A[2], mk_sub(A[0], cap(P[0], t)), again), w, "a filled segment takes its capacity, rounded up", d("left", A[2]))
    C.ob(same(f, subst(t, X[0], X[2]), mk_add(t, I(1)), again), w, "goes on to the next segment")
    C.ob(b_and(b_and(f.ok, walk), b_and(go, b_not(part))) is FALSE, w, "stops only in the segment the amount ends in")
    C.ob(b_and(b_and(f.ok, walk), b_and(b_not(go), b_not(eq(A[0], I(0))))) is FALSE, w, "a curve that cannot take the whole threshold is refused")
    want = ite(go, nxt(P[0], t, A[0]), P[0])
    for c, v in reversed(before):
        want = ite(c, v, want)
    C.ob(same(f, f.val, want), w, "the migration price is the one reached with exactly the threshold", d("got", f.val, "expected", want))


def base_for_swap(C):
    f = C.fn(LD + "get_base_token_for_swap", boundary=STEPS)
    start, stop, curve = f.args[0], f.args[1], curve_of(f, 2)
    w = f.where()
    L, t, X, k = the_loop(f, curve)
    C.ob(k == 0, w, "starts at the first segment")
    C.ob(same(f, subst(t, X[0], X[2]), mk_add(t, I(1)), L["again"]), w, "goes on to the next segment")
    rest = [m for m in L["mus"] if m is not X]
    tot = [m for m in rest if m[1] is I(0)]
    low = [m for m in rest if m[1] is start]
    if len(tot) != 1 or len(rest) > 2 or len(rest) == 2 and len(low) != 1:
        raise Unrecognised("state of the walk")
    T_ = tot[0]
    again = L["again"]
    if low:
        lower = low[0][0]
        C.ob(same(f, low[0][2], pt(curve, t, "sqrt_price"), again), w, "each segment starts where the last one ended")
    else:
        lower = ite(eq(t, I(0)), start, pt(curve, mk_sub(t, I(1)), "sqrt_price"))
    go = lt(t, mk("len", curve))
    px, l = pt(curve, t, "sqrt_price"), pt(curve, t, "liquidity")
    last = lt(stop, px)
    C.ob(b_and(again, b_not(b_and(go, b_not(last)))) is FALSE, w, "goes on only through segments below the given price")
    C.ob(same(f, T_[2], mk_add(T_[0], delta("base", lower, px, l)), again), w, "a whole segment counts with its base tokens, rounded up", d("total", T_[2]))
    C.ob(b_and(f.ok, b_and(go, b_not(last))) is FALSE, w, "stops only in the segment that reaches the given price")
    want = mk_add(T_[0], ite(go, delta("base", lower, stop, l), I(0)))
    C.ob(same(f, f.val, want), w, "the last segment counts up to the given price, rounded up", d("got", f.val, "expected", want))


def buffer(C):
    f = C.fn("PoolConfig::get_swap_amount_with_buffer", boundary=(LD + "get_base_token_for_swap",))
    need, start, curve = f.args
    whole = [s for s in subterms(f.val) if s.op == "call" and s.a[0].endswith("get_base_token_for_swap")]
    C.ob(len(whole) == 1 and whole[0].a[1] is start and whole[0].a[2] is I(MAX_PRICE) and whole[0].a[3] in (curve, mk("deref", curve)),
         f.where(), "the reserve is bounded by what the whole curve sells", lambda: "%s" % [show(x, 6) for x in whole])
    if len(whole) == 1:
        most = okv(whole[0].a[0], *whole[0].a[1:])
        want = mk_min(mk_add(need, mk_div(mk_mul(need, I(25)), I(100))), most)
        C.ob(same(f, f.val, want), f.where(), "the reserve is the need up to the migration price plus a quarter, within the curve", d("got", f.val))


@prop("C37", floor=10)
def c37(C):
    def f(C, g):
        try:
            g(C)
        except Unrecognised as e:
            C.L.undecided.append("%s: %s not recognised" % (g.__name__, e))
    C.each([threshold_price, base_for_swap, buffer], f)
