"""The client SDK's quotes ask the program's own quote functions the right question."""
from . import prop
from .common import *
from .fees import direction
from .swap import eq_bit
from .swapmath import okv

VPN = CRATE + "::state::virtual_pool::VirtualPool::get_swap_result_from_"
# SDK function, program function, takes a referral flag
QUOTES = (("quote_exact_in", "exact_input", True), ("quote_partial_fill", "partial_input", True), ("quote_exact_out", "exact_output", False))


@prop("C27", floor=30)
def c27(C):
    def f(C, q):
        name, kind, referral = q
        if not C.main.find("get_swap_result_from_" + kind, all=True):
            raise Missing("the %s quote" % kind)
        f = C.fn("%s::%s" % (name, name), boundary=("get_swap_result_from_" + kind,), prog=C.sdk)
        w = f.where()
        if len(f.args) != (8 if referral else 7):
            raise Undecided("parameters of " + w)
        pool_, conf = mk("deref", f.args[0]), mk("deref", f.args[1])
        sell, time, slot, amount, el = f.args[2], f.args[3], f.args[4], f.args[5], f.args[-1]
        sale = as_bool(sell)
        P, K = lambda x: fld(pool_, x), lambda x: fld(conf, x)
        never = lambda c: b_and(f.ok, c) is FALSE
        C.ob(f.ok is not FALSE, w, "a quote can succeed")
        C.ob(never(b_not(lt(P("quote_reserve"), K("migration_quote_threshold")))), w, "no quote for a pool whose curve is complete")
        C.ob(never(eq(amount, I(0))), w, "no quote for a zero amount")
        C.ob(never(lt(I(1), K("activation_type"))) or never(b_not(b_or(eq(K("activation_type"), I(0)), eq(K("activation_type"), I(1))))), w,
             "an unknown activation type is rejected")
        m = K("collect_fee_mode")
        C.ob(never(lt(I(1), m)) or never(b_not(b_or(eq(m, I(0)), eq(m, I(1))))), w, "an unknown fee collection mode is rejected")
        cs = []
        for s in subterms((f.ok, f.ret)):
            if s.op == "call" and s.a[0] == VPN + kind and s not in cs:
                cs.append(s)
        if not C.ob(bool(cs), w, "the quote is the program's own"):
            return
        s = lambda a, b: same_under(a, b, f.ok)
        if len(cs) > 1:
            raise Undecided("several quotes in " + w)
        P_, cf, am, fm, dr, pt, elig = cs[0].a[1:8]
        val = fld(as_var(cs[0], "Ok", 0), "0")
        C.ob(s(f.val, val), w, "the quote is the program's own, unchanged", d("got", f.val))
        C.ob(same_under(target(P_), pool_, f.ok), w, "the quote is made on the pool given", d("got", P_))
        C.ob(same_under(target(cf), conf, f.ok), w, "the quote is made with the config given", d("got", cf))
        C.ob(s(am, amount), w, "the quote is for the amount given", d("got", am))
        fin, fob = b_and(b_not(sale), eq(m, I(0))), b_and(b_not(sale), eq(m, I(1)))
        C.ob(s(fld(fm, "fees_on_input"), ite(fin, I(1), I(0))), w, "fees are taken from the input only when buying in quote-fee mode")
        C.ob(s(fld(fm, "fees_on_base_token"), ite(fob, I(1), I(0))), w, "fees are in base only when buying in output-fee mode")
        ref = as_bool(f.args[6]) if referral else FALSE
        C.ob(s(fld(fm, "has_referral"), ite(ref, I(1), I(0))), w, "the referral share is split off only for a referral")
        C.ob(s(eq_bit(dr, 0), ite(sale, I(1), I(0))), w, "the trade direction is the one given")
        C.ob(s(pt, ite(eq(K("activation_type"), I(0)), slot, time)), w, "the quote uses the current slot or time as configured", d("got", pt))
        C.ob(s(elig, el) or s(ite(as_bool(elig), I(1), I(0)), ite(as_bool(el), I(1), I(0))), w, "the first-swap discount is the one asked for", d("got", elig))
    C.each(list(QUOTES), f)


def target(x):
    return x.a[1] if x.op == "dataref" else mk("deref", x) if x.op == "sym" else x

