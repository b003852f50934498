"""Nothing that is stored, moved, passed on or decided went through a conversion or an operation that silently loses part of the value."""
from . import prop
from .common import *

LOSSY = ("trunc", "wrap", "cast")
CLOCK = mk("fld", mk("sysvar", "Clock"), "unix_timestamp")


def bad(x):
    # 256-bit differences of the rate limiter's inverse are beyond the normaliser: nothing is said about those
    return x.op in LOSSY and not (x.op == "cast" and x.a[0] is CLOCK) and not (x.op == "wrap" and x.a[1] >= 256)


def fits(x):
    """ways to say that nothing is lost"""
    v = x.a[0]
    if x.op == "cast":
        f, t = x.a[1], x.a[2]
        s, n = t[0] == "i", int(t[1:])
        lo = b_not(lt(v, I(0)))
        if not s:
            hi = int(f[1:]) - (f[0] == "i") > n
            yield b_and(lo, b_not(lt(I((1 << n) - 1), v))) if hi else lo
        else:
            yield b_not(lt(I((1 << (n - 1)) - 1), v))
        yield B.fits_cond(v, n, s, f[0] == "i")
        return
    n = x.a[1]
    yield B.fits_cond(v, n)
    yield b_not(lt(I((1 << n) - 1), v))
    yield lt(v, I(1 << n))
    if x.op == "wrap":
        yield b_not(lt(v, I(0)))


def live(t, x, memo):
    """the condition under which the value of t depends on x"""
    if t is x:
        return TRUE
    if t in memo:
        return memo[t]
    memo[t] = FALSE
    if not isinstance(t, T) or x not in set(subterms((t,))):
        return FALSE
    if t.op == "ite":
        c = atom_bool(t.a[0])
        r = live(t.a[0], x, memo)
        if r is not TRUE:
            r = b_or(r, b_or(b_and(c, live(t.a[1], x, memo)), b_and(b_not(c), live(t.a[2], x, memo))))
    else:
        r = FALSE
        for a in t.a:
            for y in flat(a):
                r = b_or(r, live(y, x, memo))
                if r is TRUE:
                    break
    memo[t] = r
    return r


def flat(a):
    if isinstance(a, T):
        yield a
    elif isinstance(a, tuple):
        for x in a:
            yield from flat(x)


def judge(C, w, ok, effects):
    """effects: (what, condition, term)"""
    n, lost = 0, {}
    for what, pc, t in effects:
        n += 1
        for x in subterms((t,)):
            if bad(x) and x not in lost:
                u = b_and(b_and(ok, pc), live(t, x, {}))
                if u is not FALSE and not any(b_and(u, b_not(f)) is FALSE for f in fits(x)):
                    lost[x] = what
    for x, what in lost.items():
        C.ob(False, w, "nothing that %s lost part of its value in a conversion or by wrapping" % what, d("lossy", x))
    return n


@prop("C16", floor=40)
def c16(C):
    def f(C, ix):
        e = C.entry(ix)
        eff = [("an instruction decides by", TRUE, e.ok)]
        eff += [("is stored", TRUE, v) for v in e.st.m.values() if isinstance(v, T)]
        for ev in e.events:
            eff += [("is moved, passed on or announced", ev.pc, v) for v in ev.vals if isinstance(v, T)]
        n = judge(C, e.where(), e.ok, eff)
        C.ob(n > 0, e.where(), "values an instruction stores, moves or decides by are complete")

    C.each(C.ixs(), f)

    def g(C, s):
        if not C.main.find(s, all=True):
            raise Undecided("function %s not found" % s)
        f = C.fn(s, boundary=PURE)
        n = judge(C, f.where(), f.ok, [("a computation decides by", TRUE, f.ok), ("a computation returns", TRUE, f.ret)])
        C.ob(n > 0, f.where(), "values a computation returns are complete")
    # the square root's own loop over 256-bit words is left out
    C.each([s for s in PURE if s != "utils_math::sqrt_u256"], g)
