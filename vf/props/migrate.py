"""Migration: what is deposited, at what price, for whom, and under which lock."""
from . import prop
from .common import *
from .swapmath import okv
from .config import MAXP, MINP, vesting_terms, SCHED
from .launch import named, always, who, opt_is, ctx

V1, V2 = "migrate_meteora_damm", "migration_damm_v2"
BOTH = [V1, V2]
DEAD = 100 << 64
DELTA_BASE = CRATE + "::curve::get_delta_amount_base_unsigned"
DOWN = adt(CRATE + "::u128x128_math::Rounding", "Down", 1, ())
SQRT = CRATE + "::math::utils_math::sqrt_u256"
TOTAL = ("unlocked", "permanent", "vested")


def somecall(fn, *args):
    return fld(as_var(mk("call", fn, *args), "Some", 1), "0")


def ordered(ts):
    return sorted(ts, key=lambda t: t.id)


class Mig:
    def __init__(self, C, ix):
        self.C, self.ix, self.v2 = C, ix, ix == V2
        self.e = e = C.entry(ix)
        self.w = e.where()
        self.P = lambda f: e.pre("config", f)
        self.V = lambda f: e.pre("virtual_pool", f)
        self.mp = self.P("migration_sqrt_price")
        self.basefees = mk_add(self.V("protocol_base_fee"), mk_add(self.V("partner_base_fee"), self.V("creator_base_fee")))
        self.before = {"base": e.pre("base_vault", "amount"), "quote": e.pre("quote_vault", "amount")}
        self.down = self.rounding()
        # how the new pool gathers fees decides how its liquidity is laid out
        m = self.P("migrated_collect_fee_mode")
        self.modes = [(k, eq(m, I(k))) for k in range(3)] if self.v2 else [(2, TRUE)]
        self.mints = ("base_mint", "quote_mint") if self.v2 else ("token_a_mint", "token_b_mint")

    def rounding(self):
        ds = {s.a[4] for s in subterms((self.e.ok, self.e.post("virtual_pool"))) if s.op == "call" and s.a[0] == DELTA_BASE}
        ds = [x for x in ds if x.op == "adt" and x.a[1] == "Down"]
        return ds[0] if ds else DOWN

    def lq(self, x):
        return mk_div(mk_scale(x, 1 << 128), mk_sub(self.mp, I(MINP)))

    def lb(self, x):
        return mk_div(mk_scale(mk_mul(x, self.mp), MAXP), mk_sub(I(MAXP), self.mp))

    def included(self, k):
        P = self.P
        q = mk_div(mk_add(mk_mul(P("migration_quote_threshold"), mk_sub(I(100), P("migration_fee_percentage"))), I(99)), I(100))
        b = P("migration_base_threshold") if k == 2 else mk_sub(self.before["base"], self.basefees)
        return b, q

    def fees(self, k):
        b, q = self.included(k)
        bps = self.V("protocol_liquidity_migration_fee_bps")
        fq = mk_div(mk_mul(q, bps), I(10000))
        fb = mk_div(mk_mul(b, bps), I(10000)) if k == 2 else okv(DELTA_BASE, self.mp, I(MAXP), self.lq(fq), self.down)
        return fb, fq

    def deposit(self, k):
        (b, q), (fb, fq) = self.included(k), self.fees(k)
        return mk_sub(b, fb), mk_sub(q, fq)

    def opening(self, k):
        """price, liquidity to share, liquidity left to nobody"""
        b, q = self.deposit(k)
        if k != 2:
            return self.mp, mk_min(self.lb(b), self.lq(q)), I(0)
        x = mk_scale(q, 1 << 128)
        price = somecall(SQRT, mk_divc(x, b))
        return price, mk_sub(mk_mul(somecall(SQRT, mk_div(x, b)), b), I(DEAD)), I(DEAD)

    def shares(self, liq):
        pc = lambda f: mk_div(mk_mul(liq, self.P(f)), I(100))
        out = {}
        for p in ("partner", "creator"):
            out[p] = {"permanent": pc(p + "_permanent_locked_liquidity_percentage"),
                      "vested": pc(p + "_liquidity_vesting_info.vesting_percentage")}
        out["partner"]["unlocked"] = pc("partner_liquidity_percentage")
        rest = liq
        for p, k in (("partner", "unlocked"), ("partner", "permanent"), ("partner", "vested"), ("creator", "permanent"), ("creator", "vested")):
            rest = mk_sub(rest, out[p][k])
        out["creator"]["unlocked"] = rest
        for p in out:
            out[p]["total"] = mk_add(out[p]["unlocked"], mk_add(out[p]["permanent"], out[p]["vested"]))
        return out

    def owner(self, p):
        return self.P("fee_claimer") if p == "partner" else self.V("creator")

    def reloads(self, vault):
        a = self.e.acct(vault)
        ts = {t for ev in self.e.events for t in subterms((tuple(ev.vals), ev.pc)) if t.op == "reload" and t.a[0] is a}
        return ordered(ts | {t for t in subterms(self.e.ok) if t.op == "reload" and t.a[0] is a})

    def creations(self):
        return named(self.e, "initialize_pool", "initialize_pool_with_dynamic_config",
                     "initialize_permissionless_constant_product_pool_with_config2")


def after(t, *names):
    """the balance was read after the named call"""
    return any(s.op == "call" and str(s.a[0]).split("::")[-1] in names for s in subterms(t.a[1]))


CREATE = ("initialize_pool", "initialize_pool_with_dynamic_config", "initialize_permissionless_constant_product_pool_with_config2")


def once(C, e, evs, w, rule, cond=TRUE):
    """the events happen one at a time, and one of them exactly when cond"""
    some = FALSE
    for i, x in enumerate(evs):
        for y in evs[:i]:
            C.ob(b_and(b_and(x[1].pc, y[1].pc), e.ok) is FALSE, w, rule + " (once)")
        some = b_or(some, x[1].pc)
    C.ob(e.implied(b_or(b_and(some, cond), b_and(b_not(some), b_not(cond)))), w, rule, d("when", e.given(some)))


def arg(t, f):
    return fld(t, f)


@prop("C20", floor=40)
def c20(C):
    C.each(BOTH, lambda C, ix: deposited(C, Mig(C, ix)))


def deposited(C, m):
    e, w = m.e, m.w
    V, P = m.V, m.P
    C.ob(e.implied(eq(V("migration_progress"), I(2))), w, "migrates only after the vesting of the base token is locked")
    C.ob(e.implied(b_not(lt(V("quote_reserve"), P("migration_quote_threshold")))), w, "migrates only a completed curve")
    C.ob(e.implied(eq(P("migration_option"), I(1 if m.v2 else 0))), w, "migrates only where the config says")
    for f, v in (("migration_progress", 3), ("is_migrated", 1)):
        C.ob(e.same(e.post("virtual_pool", f), I(v)), w, "the pool is marked as migrated", d("field", mk("sym", f), "is", e.given(e.post("virtual_pool", f))))
    new = m.creations()
    once(C, e, new, w, "the new pool is created, once")
    n = 0
    for k, g in m.modes:
        fb, fq = m.fees(k)
        for f, v in (("base", fb), ("quote", fq)):
            got = e.post("virtual_pool", "protocol_migration_%s_fee_amount" % f)
            C.ob(e.same(got, v, g), w, "the protocol's share of the %s liquidity is recorded" % f, d("got", e.given(got, g), "expected", v))
        b, q = m.deposit(k)
        if k == 2:
            C.ob(e.implied(b_not(lt(mk_sub(m.before["base"], m.basefees), P("migration_base_threshold"))), g), w,
                 "unclaimed base fees are not deposited")
        price, liq, dead = m.opening(k)
        sh = m.shares(liq)
        first = mk_max(sh["partner"]["total"], sh["creator"]["total"])
        p_first = lt(sh["creator"]["total"], sh["partner"]["total"])
        for name, ev, acc, prog, seeds, args in new:
            u = b_and(g, ev.pc)
            if b_and(u, e.ok) is FALSE:
                continue
            n += 1
            if not m.v2:
                C.ob(e.same(args[0], b, u) and e.same(args[1], q, u), w, "deposits the thresholds less the fees",
                     d("base", e.given(args[0], u), "quote", e.given(args[1], u), "expected base", b, "expected quote", q))
                C.ob(B.is_none(args[2]) is TRUE, w, "trading on the new pool opens at once")
                continue
            a = args[0]
            C.ob(e.same(arg(a, "sqrt_price"), price, u), w, "the new pool opens at the price the curve ended at",
                 d("got", e.given(arg(a, "sqrt_price"), u), "expected", price))
            for who_, c in (("partner", p_first), ("creator", b_not(p_first))):
                C.ob(e.same(arg(a, "liquidity"), mk_add(sh[who_]["total"], dead), b_and(u, c)), w,
                     "the new pool opens with the larger share of the liquidity the deposit affords",
                     d("got", e.given(arg(a, "liquidity"), b_and(u, c)), "expected", mk_add(sh[who_]["total"], dead)))
            C.ob(B.is_none(arg(a, "activation_point")) is TRUE, w, "trading on the new pool opens at once")
        if m.v2:
            n += second(C, m, k, g, b, q)
    for name, ev, acc, prog, seeds, args in new:
        C.ob(who(acc, "payer_token_a", "payer_token_b") == [e.acct("base_vault"), e.acct("quote_vault")], w, "the deposit comes from the pool's vaults")
        C.ob(who(acc, "token_a_mint", "token_b_mint") == [e.acct(x) for x in m.mints], w, "the new pool trades the pool's tokens")
        C.ob(who(acc, "pool") == [e.acct("pool")], w, "one new pool")
    C.ob(n >= 1, w, "the deposit is checked")
    C.ob(not e.transfers, w, "migration pays nobody directly", lambda: str(e.transfers[:2]))


def second(C, m, k, g, b, q):
    """the rest of the deposit follows as a second position"""
    e, w = m.e, m.w
    adds = named(e, "add_liquidity")
    C.ob(bool(adds), w, "what the first position left over is added as the second position")
    n = 0
    for name, ev, acc, prog, seeds, args in adds:
        u = b_and(g, ev.pc)
        if b_and(u, e.ok) is FALSE:
            continue
        got = arg(args[0], "liquidity_delta")
        want = deltas(m, k, b, q)
        C.ob(any(e.same(got, x, u) for x in want), w, "the second position gets what the first left of the deposit",
             d("got", e.given(got, u), "expected", want[0] if want else UNIT))
        C.ob(who(acc, "token_a_account", "token_b_account") == [e.acct("base_vault"), e.acct("quote_vault")], w, "the deposit comes from the pool's vaults")
        C.ob(who(acc, "pool", "position") == [e.acct("pool"), e.acct("second_position")], w, "the second position belongs to the new pool")
        n += 1
    return n


def deltas(m, k, b, q):
    """what the second position may be, for each reading of the vaults after the pool's creation"""
    e = m.e
    out = []
    new = "data"
    for rb in m.reloads("base_vault"):
        for rq in m.reloads("quote_vault"):
            if not (after(rb, *CREATE) and after(rq, *CREATE)) or after(rb, "add_liquidity") or after(rq, "add_liquidity"):
                continue
            lb = mk_sub(b, mk_sub(m.before["base"], fld(rb, "amount")))
            lq = mk_sub(q, mk_sub(m.before["quote"], fld(rq, "amount")))
            if k != 2:
                out.append(mk_min(m.lb(lb), m.lq(lq)))
            else:
                D = lambda f: e.pre("pool", f)
                out.append(mk_min(mk_div(mk_mul(lb, D("liquidity")), D("token_a_amount")), mk_div(mk_mul(lq, D("liquidity")), D("token_b_amount"))))
    return out


NOW = mk("cast", mk("fld", mk("sysvar", "Clock"), "unix_timestamp"), "i64", "u64")
LOCKS = ("permanent_lock_position", "lock_inner_position")


@prop("C21", floor=60)
def c21(C):
    C.each([(V1, 2), (V2, 0), (V2, 1), (V2, 2)], lambda C, it: shared(C, *it))


def shared(C, ix, k):
    m = Mig(C, ix)
    return positions(C, m, k) if m.v2 else tokens(C, m)


def tokens(C, m):
    """the first destination: liquidity tokens, shared out through the migration record"""
    e, w = m.e, m.w
    meta = one(e, D1META, "migration record")
    new = m.creations()
    C.ob(bool(new), w, "the new pool is created, once")
    for name, ev, acc, prog, seeds, args in new:
        C.ob(who(acc, "payer_pool_lp") == [e.acct("virtual_pool_lp")] and who(acc, "lp_mint") == [e.acct("lp_mint")], w,
             "the liquidity tokens go to the pool authority's account")
    lp = {t for t in subterms(e.post(meta)) if t.op == "call" and str(t.a[0]).endswith("accessor::amount")}
    C.ob(len(lp) == 1 and all(t.a[1] is e.acct("virtual_pool_lp") for t in lp), w, "the liquidity tokens received are what is shared",
         lambda: str([show(t) for t in lp]))
    for t in lp:
        sh = m.shares(fld(as_var(t, "Ok", 0), "0"))
        for p in ("partner", "creator"):
            for f, x in (("_liquidity", "unlocked"), ("_locked_liquidity", "permanent")):
                C.ob(e.same(e.post(meta, p + f), sh[p][x]), w, "each party's liquidity is recorded as the config shares it",
                     d("field", mk("sym", p + f), "got", e.given(e.post(meta, p + f)), "expected", sh[p][x]))
    C.ob(e.same(e.post(meta, "lp_mint"), e.key_of("lp_mint")), w, "the record names the liquidity token of the new pool")
    C.ob(e.implied(eq(e.pre(meta, "virtual_pool"), e.key_of("virtual_pool"))), w, "the record is the migrated pool's")
    frame(C, e, meta, ("partner_liquidity", "partner_locked_liquidity", "creator_liquidity", "creator_locked_liquidity", "lp_mint"), "migration record")


class Case:
    """an entry under an assumption, with every choice the assumption settles resolved"""

    def __init__(self, e, u):
        self.e, self.u, self.memo = e, u, {}
        self.ok = b_and(self(e.ok), u)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = t
            for _ in range(6):
                n = self.inside(r)
                if n is r:
                    break
                r = n
            self.memo[t] = r
        return r

    def inside(self, t):
        if t.op == "adt":
            return mk("adt", t.a[0], t.a[1], t.a[2], tuple((k, self.inside(x)) for k, x in t.a[3]))
        return given(t, self.u)

    def implied(self, cond, under=TRUE):
        return b_and(b_and(self.ok, self(under)), b_not(self(cond))) is FALSE

    def never(self, c):
        return b_and(self.ok, self(c)) is FALSE

    def same(self, a, b, under=TRUE):
        return a is b or same_under(self(a), self(b), b_and(self.ok, self(under)))

    def given(self, t, under=TRUE):
        return given(self(t), self(under)) if under is not TRUE else self(t)


def positions(C, m, k):
    e, w = m.e, m.w
    g = dict(m.modes)[k]
    price, liq, dead = m.opening(k)
    sh = m.shares(liq)
    p_first = lt(sh["creator"]["total"], sh["partner"]["total"])
    add = named(e, "add_liquidity")
    new = m.creations()
    C.ob(len(add) == 1 and bool(new), w, "two positions are opened")
    added = add[0][1].pc
    for x in new:
        C.ob(who(x[2], "creator", "position", "position_nft_account") == [e.acct("pool_authority"), e.acct("first_position"), e.acct("first_position_nft_account")],
             w, "the first position opens under the pool authority")
    made = named(e, "create_position")
    once(C, e, made, w, "the second position is opened when something is left for it", added)
    for x in made:
        C.ob(who(x[2], "owner", "position", "position_nft_account", "pool") ==
             [e.acct("pool_authority"), e.acct("second_position"), e.acct("second_position_nft_account"), e.acct("pool")],
             w, "the second position opens under the pool authority")
    for x in add:
        C.ob(who(x[2], "position_nft_account", "owner") == [e.acct("second_position_nft_account"), e.acct("pool_authority")], w,
             "the second position opens under the pool authority")
    index = {id(ev): i for i, ev in enumerate(e.events)}
    locks = named(e, *LOCKS)
    handed = named(e, "set_authority")
    C.ob(all(who(x[2], "pool") == [e.acct("pool")] for x in locks), w, "only positions of the new pool are locked")
    by = {}
    for n, pos in enumerate(("first_position", "second_position")):
        nft = e.acct(pos + "_nft_account")
        mine = [x for x in locks if fld(x[2], "position") is e.acct(pos)]
        C.ob(all(fld(x[2], "position_nft_account") is nft and fld(x[2], "owner") is e.acct("pool_authority") for x in mine), w,
             "positions are locked by their owner")
        out = [x for x in handed if fld(x[2], "account_or_mint") is nft]
        C.ob(len(out) == 1, w, "each position is handed over")
        for x in mine:
            C.ob(all(index[id(y[1])] < index[id(x[1])] for y in (new if n == 0 else add)), w, "a position is locked after it is filled")
            C.ob(all(index[id(x[1])] < index[id(o[1])] for o in out), w, "a position is locked before it is handed over")
        by[n] = mine, out
    C.ob(len(locks) == sum(len(x) for x, _ in by.values()) and len(handed) == 2, w, "nothing else is locked or handed over")
    for first, c in (("partner", p_first), ("creator", b_not(p_first))):
        other = "creator" if first == "partner" else "partner"
        pct = [eq(m.P(other + x), I(0)) for x in ("_liquidity_vesting_info.vesting_percentage", "_permanent_locked_liquidity_percentage")]
        for mask in range(4):
            u = b_and(g, c)
            for i in (0, 1):
                u = b_and(u, pct[i] if mask >> i & 1 else b_not(pct[i]))
            s = Case(e, u)
            if mask == 0:
                position(C, m, s, TRUE, by[0], first, sh[first]["permanent"], sh[first]["vested"])
            delta = s(fld(add[0][5][0], "liquidity_delta"))

            def second(s):
                perm, vest = rest(m, other, sh, s(delta))
                position(C, m, s, s(added), by[1], other, s(perm), s(vest))

            # the unlocked part takes what it can: where that choice is spelled out, each way is followed on its own
            few = b_not(lt(s(sh[other]["unlocked"]), delta))
            C.split(lambda: second(s), [lambda c=c: second(Case(e, b_and(u, c))) for c in (few, b_not(few))])


def position(C, m, s, when, evs, p, perm, vest):
    """one position, of one party"""
    w = m.w
    mine, out = evs
    for o in out:
        a = o[5]
        C.ob(s.implied(o[1].pc, when), w, "each position is handed over")
        C.ob(a[0].op == "adt" and a[0].a[1] == "AccountOwner" and opt_is(s, a[1], (TRUE, m.owner(p)), when), w,
             "each position goes to its party", d("to", s.given(a[1], when), "expected", m.owner(p)))
    # both are unsigned amounts: their sum is zero only when both are
    nat = b_or(b_not(eq(mk_add(perm, vest), I(0))), b_and(eq(perm, I(0)), eq(vest, I(0))))
    for kind, want in (("permanent_lock_position", perm), ("lock_inner_position", vest)):
        evs = [x for x in mine if x[0] == kind]
        some = FALSE
        for i, x in enumerate(evs):
            for y in evs[:i]:
                C.ob(s.never(b_and(x[1].pc, y[1].pc)), w, "locked once")
            pc = b_and(when, s(x[1].pc))
            some = b_or(some, pc)
            if s.never(pc):
                continue
            if kind == "permanent_lock_position":
                C.ob(s.same(x[5][0], want, pc), w, "the configured share is locked for ever", d("got", s.given(x[5][0], pc), "expected", want))
            else:
                vested(C, m, s, p, x[5][0], want, pc)
        due = b_not(eq(want, I(0)))
        C.ob(s.implied(b_or(b_and(some, due), b_and(b_not(some), b_not(due))), b_and(when, nat)), w,
             "liquidity to be locked is locked", d("when", s.given(some, when), "amount", want))


def rest(m, p, sh, delta):
    """what of the second position is locked for ever, and what vests"""
    info = m.P("%s_liquidity_vesting_info.vesting_percentage" % p)
    tot = mk_add(info, m.P("%s_permanent_locked_liquidity_percentage" % p))
    lock = mk_sub(delta, mk_min(delta, sh[p]["unlocked"]))
    v = mk_div(mk_mul(lock, info), tot)
    none = eq(tot, I(0))
    return ite(none, I(0), mk_sub(lock, v)), ite(none, I(0), v)


def vested(C, m, s, p, got, amount, u):
    v = vesting_terms(lambda f: m.P("%s_liquidity_vesting_info.%s" % (p, f)), NOW, amount)
    want = {"period_frequency": v["freq"], "number_of_period": v["n"], "liquidity_per_period": v["per"], "cliff_unlock_liquidity": v["unlock"]}
    for f, x in want.items():
        C.ob(s.same(fld(got, f), x, u), m.w, "the configured share vests as configured", d("field", mk("sym", f), "got", s.given(fld(got, f), u), "expected", s.given(x, u)))
    cl = fld(got, "cliff_point")
    C.ob(opt_is(s, cl, (TRUE, v["cliff"]), u), m.w, "vesting waits for the configured time", d("got", s.given(cl, u), "expected", v["cliff"]))


BPS = (25, 30, 100, 200, 400, 600)
TREND = {0: "BorshFeeTimeScheduler", 1: "BorshFeeTimeScheduler", 3: "BorshFeeMarketCapScheduler", 4: "BorshFeeMarketCapScheduler"}


@prop("C34", floor=60)
def c34(C):
    C.each([(V1, None)] + [(V2, x) for x in ["checks", 0, 1, 2, 3, 4]], lambda C, it: destination(C, *it))


def destination(C, ix, part):
    m = Mig(C, ix)
    e, w, P = m.e, m.w, m.P
    if m.v2 and part != "checks":
        return terms(C, m, part)
    new = m.creations()
    confs = {fld(x[2], "config") for x in new}
    C.ob(len(confs) == 1, w, "one config governs the new pool")
    acc = confs.pop()
    conf = lambda f: get(fld_data(acc), f)
    C.ob(e.implied(eq(conf("pool_creator_authority"), e.key_of("pool_authority"))) or e.implied(eq(conf("pool_creator_authority"), pool_auth())), w,
         "the config reserves the right to create the pool for this program")
    C.ob(e.implied(eq(e.key_of("pool_authority"), pool_auth())), w, "the pool authority is the program's")
    opt = P("migration_fee_option")
    C.ob(e.implied(lt(opt, I(7))), w, "an unknown fee option is refused")
    owned(C, e, acc, "accounts::Config")
    if not m.v2:
        bps = mk_div(mk_scale(conf("pool_fees.trade_fee_numerator"), 10000), conf("pool_fees.trade_fee_denominator"))
        for i, b in enumerate(BPS):
            C.ob(e.implied(eq(bps, I(b)), eq(opt, I(i))), w, "the new pool charges the chosen fee")
        for f, v, what in (("activation_duration", I(0), "the new pool opens without delay"), ("partner_fee_numerator", I(0), "nobody else shares the new pool's fees"),
                           ("vault_config_key", pubkey(bytes(32)), "the new pool has no vault reserved for others")):
            C.ob(e.implied(eq(conf(f), v)), w, what)
        return
    sched = [t for t in subterms(e.ok) if t.op == "call" and str(t.a[0]).endswith("try_from_bytes") and t.a[1] is conf("pool_fees.base_fee.data")]
    C.ob(len(set(sched)) == 1, w, "the new pool's fee schedule is read from its config")
    for t in set(sched):
        sc = lambda f: fld(mk("deref", fld(as_var(t, "Ok", 0), "0")), f)
        for i, b in enumerate(BPS):
            u = eq(opt, I(i))
            C.ob(e.implied(eq(mk_div(mk_scale(sc("cliff_fee_numerator"), 10000), I(10 ** 9)), I(b)), u), w, "the new pool charges the chosen fee")
            C.ob(e.implied(lt(sc("base_fee_mode"), I(2)), u), w, "the chosen fee is a schedule in time")
            for f in ("period_frequency", "reduction_factor", "number_of_period"):
                C.ob(e.implied(eq(sc(f), I(0)), u), w, "the chosen fee never changes", d("field", mk("sym", f)))
            for f, v, what in (("sqrt_min_price", I(MINP), "the new pool covers every price"), ("sqrt_max_price", I(MAXP), "the new pool covers every price"),
                               ("vault_config_key", pubkey(bytes(32)), "the new pool has no vault reserved for others"),
                               ("activation_type", I(1), "the new pool keeps time by the clock")):
                C.ob(e.implied(eq(conf(f), v), u), w, what)
    kinds = {"initialize_pool": b_not(eq(opt, I(6))), "initialize_pool_with_dynamic_config": eq(opt, I(6))}
    for name, ev, a, prog, seeds, args in new:
        C.ob(e.implied(kinds[name], ev.pc), w, "only a customised pool is created with its own terms")


def fld_data(acc):
    return mk("data", acc)


def owned(C, e, acc, ty):
    """the account was checked to be one of the pool program's configs"""
    n = next((n for n in e.accts if e.acct(n) is acc), None)
    ok = n is not None and ty + ">" in e.accts[n].replace(" ", "") or \
        ("try_from" in e.R.acct_ctor.get(acc, ()) and "try_from_unchecked" not in e.R.acct_ctor.get(acc, ()) and ty in str(e.R.acct_type.get(acc)))
    C.ob(ok, e.where(), "the config is one of the pool program's", lambda: str((e.R.acct_ctor.get(acc), e.R.acct_type.get(acc))))


def terms(C, m, bm):
    """the terms of a customised pool, by its fee schedule"""
    e, w, P = m.e, m.w, m.P
    new = [x for x in m.creations() if x[0].endswith("dynamic_config")]
    C.ob(len(new) == 1, w, "a customised pool is created with its own terms")
    x = new[0]
    u = b_and(eq(P("migration_fee_option"), I(6)), eq(P("migrated_pool_base_fee_mode"), I(bm)))
    s = Case(e, u)
    if bm not in TREND:
        C.ob(s.ok is FALSE, w, "the new pool's fee follows one of the four schedules")
        return
    C.ob(s.implied(x[1].pc), w, "a customised pool is created with its own terms")
    a = x[5][0]
    for f, v in (("sqrt_min_price", I(MINP)), ("sqrt_max_price", I(MAXP)), ("activation_type", I(1))):
        C.ob(s.same(fld(a, f), v), w, "the new pool covers every price and keeps time by the clock", d("field", mk("sym", f), "is", fld(a, f)))
    C.ob(s.same(ite(as_bool(fld(a, "has_alpha_vault")), I(1), I(0)) if fld(a, "has_alpha_vault").op != "int" else fld(a, "has_alpha_vault"), I(0)), w,
         "the new pool has no vault reserved for others", d("is", fld(a, "has_alpha_vault")))
    for k, v in ((0, 1), (1, 0), (2, 2)):
        C.ob(s.same(fld(a, "collect_fee_mode"), I(v), eq(P("migrated_collect_fee_mode"), I(k))), w, "the new pool gathers fees as configured",
             d("got", s(fld(a, "collect_fee_mode"))))
    pf = fld(a, "pool_fees")
    C.ob(s.same(fld(pf, "compounding_fee_bps"), P("migrated_compounding_fee_bps")), w, "the new pool compounds as configured")
    data = s(given(get(pf, "base_fee.data"), u))
    ser = {t for t in subterms(data) if t.op == "call" and str(t.a[0]).endswith("BorshSerialize>::serialize")}
    C.ob(len(ser) == 1, w, "the new pool's fee schedule is the configured one", d("data", data))
    cliff = mk_div(mk_scale(P("migrated_pool_fee_bps"), 10 ** 9), I(10000))
    low = cliff
    for t in ser:
        v = t.a[1]
        C.ob(v.op == "adt" and v.a[0].split("::")[-1] == TREND[bm], w, "the new pool's fee schedule is the configured one", d("schedule", v))
        C.ob(s.same(fld(v, "cliff_fee_numerator"), cliff), w, "the new pool starts at the configured fee", d("got", fld(v, "cliff_fee_numerator")))
        C.ob(s.same(fld(v, "base_fee_mode"), I(bm)) or fld(v, "base_fee_mode") is P("migrated_pool_base_fee_mode"), w,
             "the new pool's fee schedule is the configured one", d("mode", fld(v, "base_fee_mode")))
        if bm < 2:
            for f in ("number_of_period", "period_frequency", "reduction_factor"):
                z = fld(v, f)
                C.ob(z is I(0) or z.op == "fld" and z.a[0].op == "call" and z.a[0].a[0].endswith("Default>::default"), w,
                     "a fee with no schedule never changes", d("field", mk("sym", f), "is", z))
            continue
        src = {t for t in subterms(v) if t.op == "call" and str(t.a[0]).endswith("try_from_slice")}
        C.ob(len(src) == 1 and all(t.a[1] is P("migrated_pool_base_fee_bytes") for t in src), w, "the schedule's terms are the stored ones")
        for t in src:
            g = lambda f: fld(fld(as_var(t, "Ok", 0), "0"), f)
            for f in SCHED:
                C.ob(s.same(fld(v, f), g(f)), w, "the schedule's terms are the stored ones", d("field", mk("sym", f), "is", fld(v, f)))
            from .config import powfee
            low = mk_sub(cliff, mk_mul(g("number_of_period"), g("reduction_factor"))) if bm == 3 else powfee(cliff, g("reduction_factor"), g("number_of_period"))
    dyn = fld(pf, "dynamic_fee")
    on = eq(P("migrated_dynamic_fee"), I(1))
    top = mk_div(mk_scale(low, 20), I(100))
    C.ob(s.implied(B.is_none(dyn), b_not(on)), w, "no dynamic fee unless configured")
    g = b_and(on, b_not(B.is_none(dyn)))
    C.ob(not s.never(g), w, "a dynamic fee where configured")
    C.ob(s.implied(b_or(b_not(B.is_none(dyn)), b_or(eq(top, I(0)), b_or(b_not(fits(mk_scale(low, 20))), b_not(fits(mk_scale(top, 10 ** 11)))))), on), w,
         "a dynamic fee where configured", d("none when", s.given(B.is_none(dyn), on)))
    p = fld(as_var(dyn, "Some", 1), "0")
    for f, v in (("bin_step", I(1)), ("bin_step_u128", I(1844674407370955)), ("filter_period", I(10)), ("decay_period", I(120)),
                 ("reduction_factor", I(5000)), ("max_volatility_accumulator", I(14460000)),
                 ("variable_fee_control", mk_div(mk_sub(mk_scale(top, 10 ** 11), I(10 ** 11 - 1)), I(14460000 ** 2)))):
        C.ob(s.same(fld(p, f), v, g), w, "the dynamic fee adds at most a fifth of the lowest base fee", d("field", mk("sym", f), "got", s.given(fld(p, f), g), "expected", v))


def fits(t):
    return B.fits_cond(t, 128)


LOCK, CLAIM, RECORD = "migrate_meteora_damm_lock_lp_token", "migrate_meteora_damm_claim_lp_token", "migration_meteora_damm_create_metadata"


@prop("C36", floor=25)
def c36(C):
    C.each([LOCK, CLAIM, RECORD], lambda C, ix: record(C, ix) if ix == RECORD else paid_lp(C, ix))


def in_mint(e, acc, owner, mint):
    """acc holds tokens of this mint: by its own record, or as the one account of that owner for that mint"""
    if e.implied(eq(e.pre(acc, "mint"), mint)):
        return True
    return any(t.op == "call" and t.a[0].endswith("::get_associated_token_address") and e.implied(eq(t.a[1], owner)) and e.implied(eq(t.a[2], mint))
               for t in e.equals(e.key_of(acc)))


def paid_lp(C, ix):
    """each party's share of the liquidity tokens is locked for it, or handed to it, once"""
    e = C.entry(ix)
    w = e.where()
    lock = ix == LOCK
    meta = one(e, D1META, "migration record")
    M = lambda f: e.pre(meta, f)
    own = e.key_of("owner")
    isp, isc = eq(own, M("partner")), eq(own, e.pre("virtual_pool", "creator"))
    C.ob(e.implied(eq(e.pre("virtual_pool", "migration_progress"), I(3))), w, "only after migration")
    C.ob(e.implied(eq(M("virtual_pool"), e.key_of("virtual_pool"))), w, "the record is the pool's")
    C.ob(e.implied(eq(M("lp_mint"), e.key_of("lp_mint"))), w, "the liquidity token is the recorded one")
    C.ob(e.implied(b_or(isp, isc)), w, "only the partner and the creator have a share")
    field, st = ("%s_locked_liquidity", "%s_locked_status") if lock else ("%s_liquidity", "%s_claim_status")
    amount = mk_add(ite(isp, M(field % "partner"), I(0)), ite(isc, M(field % "creator"), I(0)))
    for p, is_ in (("partner", isp), ("creator", isc)):
        C.ob(e.implied(b_not(eq(M(st % p), I(1))), is_), w, "a share is paid only once", d("party", mk("sym", p)))
        C.ob(e.same(e.post(meta, st % p), I(1), is_), w, "a paid share is marked", d("party", mk("sym", p)))
        C.ob(e.same(e.post(meta, st % p), M(st % p), b_not(is_)), w, "the other party's share stays", d("party", mk("sym", p)))
    frame(C, e, meta, (st % "partner", st % "creator"), "migration record")
    C.ob(e.implied(b_not(eq(amount, I(0)))), w, "there is something to pay")
    calls = named(e, "lock") if lock else named(e, "transfer", "transfer_checked")
    C.ob(len(calls) == 1 and always(e, calls[0][1]) and not e.transfers, w, "the share is paid, once")
    src = "source_tokens" if lock else "source_token"
    for n, ev, acc, prog, seeds, args in calls:
        C.ob(e.same(args[0], amount), w, "exactly the recorded share is paid", d("got", e.given(args[0]), "expected", amount))
        if lock:
            C.ob(who(acc, "source_tokens", "lock_escrow", "pool", "lp_mint") == [e.acct(x) for x in (src, "lock_escrow", "pool", "lp_mint")], w,
                 "the share goes into the party's lock")
            C.ob(e.implied(eq(e.pre("lock_escrow", "owner"), own)) and e.implied(eq(e.pre("lock_escrow", "pool"), e.key_of("pool"))), w,
                 "the share goes into the party's lock")
            C.ob(prog is e.acct("amm_program"), w, "the pool program holds the lock")
            C.ob(fld(acc, "owner") is e.acct("pool_authority"), w, "the share comes from the pool authority")
        else:
            C.ob(who(acc, "from", "to", "authority") == [e.acct(src), e.acct("destination_token"), e.acct("pool_authority")], w, "the share goes to the party")
            C.ob(e.implied(eq(e.pre("destination_token", "owner"), own)), w, "the share goes to the party")
            C.ob(in_mint(e, "destination_token", own, M("lp_mint")), w, "the share is paid in the recorded liquidity token")
    C.ob(in_mint(e, src, e.key_of("pool_authority"), M("lp_mint")) and
         (e.implied(eq(e.pre(src, "owner"), e.key_of("pool_authority"))) or e.implied(eq(e.pre(src, "owner"), pool_auth()))), w,
         "the share comes from the pool authority")


def record(C, ix):
    e = C.entry(ix)
    w = e.where()
    meta = one(e, D1META, "migration record")
    C.ob(e.implied(eq(e.pre("config", "migration_option"), I(0))), w, "only where the config migrates to the first destination")
    C.ob(e.implied(eq(e.pre("virtual_pool", "config"), e.key_of("config"))), w, "the config is the pool's")
    C.ob(any(ev.name.endswith("load_init") and ev.vals[0] is e.acct(meta) for ev in e.events), w, "the record is new")
    want = {"virtual_pool": e.key_of("virtual_pool"), "partner": e.pre("config", "fee_claimer")}
    for f, v in want.items():
        C.ob(e.same(e.post(meta, f), v), w, "the record starts with the pool and its partner", d("field", mk("sym", f), "is", e.post(meta, f)))
    base = e.post(meta)
    from .launch import allzero
    for z in {t for t in subterms(base) if t.op == "zeroed"}:
        out = {}
        diff("", z, base, out)
        for k, v in out.items():
            C.ob(k in want or allzero(e, v), w, "nothing is paid or locked at first", d("field", mk("sym", k), "value", v))


@prop("C35", floor=20)
def c35(C):
    C.each(BOTH, lambda C, ix: burnt(C, Mig(C, ix)))


def burnt(C, m):
    """what migration leaves in the base vault beyond what is owed is burnt, within the supply's bounds"""
    e, w, P = m.e, m.w, m.P
    bs = named(e, "burn", "burn_checked")
    C.ob(bool(bs), w, "surplus base tokens are burnt")
    for n, ev, acc, prog, seeds, args in bs:
        C.ob(who(acc, "mint", "from") == [e.acct(m.mints[0]), e.acct("base_vault")] and fld(acc, "authority") is e.acct("pool_authority"), w,
             "only the pool's own base tokens are burnt")
    late = [r for r in m.reloads("base_vault") if after(r, *CREATE) and (not m.v2 or after(r, "add_liquidity"))]
    C.ob(len(late) >= 1, w, "the balance is read after the last deposit")
    for k, g in m.modes:
        fb, fq = m.fees(k)
        wants = []
        for r in late:
            left = mk_sub(mk_sub(fld(r, "amount"), m.basefees), fb)
            wants.append((left, mk_sub(P("pre_migration_token_supply"), P("post_migration_token_supply"))))
        s = Case(e, g)
        for fixed in (True, False):
            u = eq(P("fixed_token_supply_flag"), I(1))
            u = u if fixed else b_not(u)
            good = None
            for left, top in wants:
                amt = mk_min(left, top) if fixed else left
                some, ok = FALSE, bool(bs)
                for n, ev, acc, prog, seeds, args in bs:
                    pc = s(ev.pc)
                    some = b_or(some, pc)
                    got = args[0]
                    ok = ok and (s.never(b_and(u, pc)) or s.same(got, amt, b_and(u, pc)) or
                                 not fixed and s.same(got, mk_min(left, I((1 << 64) - 1)), b_and(u, pc)))
                # unsigned amounts: the lesser is zero only when one of them is
                cap = top if fixed else I((1 << 64) - 1)
                due = b_and(b_not(eq(left, I(0))), b_not(eq(cap, I(0))))
                nat = b_and(u, iff(b_not(eq(mk_min(left, cap), I(0))), due))
                less, l0, c0 = lt(left, cap), eq(left, I(0)), eq(cap, I(0))
                nat = b_and(nat, b_and(b_not(b_and(less, c0)), b_not(b_and(b_and(b_not(less), l0), b_not(c0)))))
                ok = ok and s.implied(iff(some, due), nat)
                good = good or ok
            C.ob(good, w, "what is not owed to anyone is burnt, up to the configured reduction of a fixed supply",
                 d("burns", s.given(bs[0][5][0], u) if bs else UNIT, "expected", wants[0][0] if wants else UNIT))
        C.ob(all(s.never(b_and(x[1].pc, y[1].pc)) for i, x in enumerate(bs) for y in bs[:i]), w, "surplus is burnt once")
        for left, top in wants[:1]:
            C.ob(s.implied(b_not(lt(mk_sub(fld(late[0], "amount"), m.basefees), fb))), w, "fees owed in base tokens stay in the vault")


def iff(a, b):
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
