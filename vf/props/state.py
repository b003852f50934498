"""Pool lifecycle: account binding, migration progress, one-shot flags, frames."""
from . import prop
from .common import *

PROGRESS = {"pre": 0, "post": 1, "vested": 2, "migrated": 3}
SWAPS = ("swap", "swap2")
INIT = ("initialize_virtual_pool_with_spl_token", "initialize_virtual_pool_with_token2022")


def is_authority(e, t, under=None):
    """the key is the pool authority address at every successful end"""
    a = pool_auth()
    return any(x is a for x in e.equals(t)) or e.implied(eq(t, a), under)


def outgoing(e):
    """token transfers of the instruction that may happen in a successful run"""
    return [t for t in e.transfers if b_and(e.ok, t.pc) is not FALSE]


@prop("C04", floor=70)
def c04(C):
    def f(C, ix):
        e = C.entry(ix)
        if of_type(e, VP) and of_type(e, PC) and ix not in INIT:
            p, c = pool(e), config(e)
            C.ob(e.implied(eq(e.pre(p, "config"), e.key_of(c))), e.where(), "the config account is the pool's own config")
        if "pool_authority" in e.accts:
            C.ob(e.implied(key_is(e, "pool_authority", pool_auth())), e.where(), "the pool authority account is the program's authority address")
        for t in outgoing(e):
            if is_authority(e, t.auth, t.pc):
                p = pool(e)
                c = FALSE
                for v in ("base_vault", "quote_vault"):
                    for k in e.equals(e.pre(p, v)):
                        c = b_or(c, eq(t.src, k))
                C.ob(e.implied(c, t.pc), e.where(), "a transfer signed by the pool authority leaves one of this pool's own vaults",
                     d("source", t.src))
            else:
                C.ob(any(e.implied(eq(t.auth, e.key_of(s)), t.pc) for s in signers(e)), e.where(),
                     "any other transfer is authorised by a signer of the instruction", d("authority", t.auth))
        # the vault accounts handed in are the pool's vaults
        if of_type(e, VP) and ix not in INIT:
            p = pool(e)
            for v in ("base_vault", "quote_vault"):
                if v in e.accts:
                    C.ob(e.implied(eq(e.pre(p, v), e.key_of(v))), e.where(), "the %s account is the pool's own %s" % (v, v))
            for m, v, own in (("base_mint", "base_vault", lambda: e.pre(p, "base_mint")),
                              ("quote_mint", "quote_vault", lambda: e.pre(config(e), "quote_mint") if of_type(e, PC) else UNIT)):
                if m in e.accts and v in e.accts:
                    c = eq(own(), e.key_of(m))
                    for x in ("mint",):
                        c = b_or(c, eq(e.pre(v, x), e.key_of(m)))
                    C.ob(e.implied(c), e.where(), "the %s account is the mint of the pool's %s" % (m, v))

    C.each(C.ixs(), f)


def migrated_rule(C, e, p):
    C.ob(e.implied(eq(e.pre(p, "migration_progress"), I(2))), e.where(), "migration runs only from the ready-to-migrate state")
    C.ob(e.same(e.post(p, "migration_progress"), I(3)), e.where(), "migration ends in the migrated state",
         d("migration_progress", e.post(p, "migration_progress")))
    C.ob(e.same(e.post(p, "is_migrated"), I(1)), e.where(), "a migrated pool is marked migrated")
    C.ob(e.implied(complete(e)), e.where(), "only a completed curve is migrated")


def complete(e):
    return b_not(lt(e.pre(pool(e), "quote_reserve"), e.pre(config(e), "migration_quote_threshold")))


VESTING = ("amount_per_period", "cliff_duration_from_migration_time", "frequency", "number_of_period", "cliff_unlock_amount")


def no_vesting(e):
    c = TRUE
    for n in VESTING:
        c = b_and(c, eq(e.pre(config(e), "locked_vesting_config." + n), I(0)))
    return c


def now(e):
    """the current unix time as the program reads it"""
    for s in subterms(tuple(x for x in (e.ok, e.post(pool(e))))):
        if s.op == "cast" and s.a[0].op == "fld" and s.a[0].a[1] == "unix_timestamp":
            return s
    return mk("cast", fld(mk("sysvar", "Clock"), "unix_timestamp"), "i64", "u64")


@prop("C05", floor=60)
def c05(C):
    def f(C, ix):
        e = C.entry(ix)
        if not of_type(e, VP) or ix in INIT:
            return
        p = pool(e)
        g, g2 = e.pre(p, "migration_progress"), e.post(p, "migration_progress")
        if ix in SWAPS:
            c = config(e)
            C.ob(e.implied(b_not(complete(e))), e.where(), "no swap on a completed curve")
            done = b_not(lt(e.post(p, "quote_reserve"), e.pre(c, "migration_quote_threshold")))
            nv = no_vesting(e)
            C.ob(e.same(g2, g, b_not(done)), e.where(), "a swap that does not complete the curve leaves the progress alone")
            C.ob(e.same(g2, I(2), b_and(done, nv)), e.where(), "completion without vesting makes the pool ready to migrate", d("progress", g2))
            C.ob(e.same(g2, I(1), b_and(done, b_not(nv))), e.where(), "completion with vesting waits for the vesting lock", d("progress", g2))
            fin = "finish_curve_timestamp"
            C.ob(e.same(e.post(p, fin), now(e), done), e.where(), "completion records the finish time")
            C.ob(e.same(e.post(p, fin), e.pre(p, fin), b_not(done)), e.where(), "the finish time is recorded only on completion")
            C.ob(e.same(e.post(p, "is_migrated"), e.pre(p, "is_migrated")), e.where(), "the migrated mark is set only by migration")
            return
        if ix == "create_locker":
            C.ob(e.implied(eq(g, I(1))), e.where(), "the vesting lock is created only after completion, before migration")
            C.ob(e.same(g2, I(2)), e.where(), "the vesting lock makes the pool ready to migrate", d("progress", g2))
        elif ix in ("migrate_meteora_damm", "migration_damm_v2"):
            migrated_rule(C, e, p)
        else:
            C.ob(e.same(g2, g), e.where(), "leaves the migration progress alone", d("progress", g2))
        if ix not in ("migrate_meteora_damm", "migration_damm_v2"):
            C.ob(e.same(e.post(p, "is_migrated"), e.pre(p, "is_migrated")), e.where(), "the migrated mark is set only by migration")
        for fl in ("finish_curve_timestamp", "quote_reserve", "sqrt_price"):
            C.ob(e.same(e.post(p, fl), e.pre(p, fl)), e.where(), "reserve, price and finish time move only in swaps", d(fl, e.post(p, fl)))
        if ix == "withdraw_leftover":
            C.ob(e.implied(eq(g, I(3))), e.where(), "leftover only after migration")
        if ix in ("migrate_meteora_damm_lock_lp_token", "migrate_meteora_damm_claim_lp_token"):
            C.ob(e.implied(eq(g, I(3))), e.where(), "LP tokens are handed out only after migration")

    C.each(C.ixs(), f)


ONCE = {  # flag -> instructions that set it
    "is_partner_withdraw_surplus": ("partner_withdraw_surplus",),
    "is_creator_withdraw_surplus": ("creator_withdraw_surplus",),
    "is_protocol_withdraw_surplus": ("claim_protocol_fee", "zap_protocol_fee"),
    "is_withdraw_leftover": ("withdraw_leftover",),
    "has_swap": SWAPS,
    "is_migrated": ("migrate_meteora_damm", "migration_damm_v2"),
}
BITS = {  # bit set -> {instruction: bits it may set}
    "migration_fee_withdraw_status": {"withdraw_migration_fee": (2, 4)},
    "creation_fee_bits": {"claim_partner_pool_creation_fee": (2,), "claim_protocol_pool_creation_fee": (1,)},
    "legacy_creation_fee_bits": {"claim_protocol_pool_creation_fee": (2,)},
}
LPBITS = ("partner_claim_status", "creator_claim_status", "partner_locked_status", "creator_locked_status")


@prop("C06", floor=150)
def c06(C):
    def f(C, ix):
        e = C.entry(ix)
        if ix in INIT:
            return
        if of_type(e, VP):
            p = pool(e)
            for fl, who in ONCE.items():
                a, b = e.pre(p, fl), e.post(p, fl)
                if ix in who:
                    C.ob(e.same(b, I(1), b_not(eq(b, a))), e.where(), "a one-shot mark is only ever set, never cleared", d(fl, b))
                else:
                    C.ob(e.same(b, a), e.where(), "a one-shot mark is touched only by the instruction it guards", d(fl, b))
            for fl, who in BITS.items():
                a, b = e.pre(p, fl), e.post(p, fl)
                if ix not in who:
                    C.ob(e.same(b, a), e.where(), "a payout bit is touched only by the instruction it guards", d(fl, b))
                else:
                    C.ob(only_sets(e, a, b, who[ix]), e.where(), "a payout bit is only ever set, never cleared", d(fl, b))
        metas = [n for n, t in e.accts.items() if D1META in t]
        for m in metas:
            if ix == "migration_meteora_damm_create_metadata":
                continue
            fresh = FALSE
            for fl in LPBITS:
                a, b = e.pre(m, fl), e.post(m, fl)
                mine = ix.endswith("claim_lp_token") and "claim" in fl or ix.endswith("lock_lp_token") and "locked" in fl
                if mine:
                    C.ob(e.same(b, I(1), b_not(eq(b, a))), e.where(), "an LP hand-out mark is only ever set", d(fl, b))
                    fresh = b_or(fresh, b_and(eq(b, I(1)), b_not(eq(a, I(1)))))
                else:
                    C.ob(e.same(b, a), e.where(), "an LP hand-out mark is touched only by the instruction it guards", d(fl, b))
            if ix.endswith(("claim_lp_token", "lock_lp_token")):
                C.ob(e.implied(fresh), e.where(), "every LP hand-out sets a mark that was not set: it happens at most once")

    C.each(C.ixs(), f)


def only_sets(e, a, b, masks):
    """b is a, or a with one of the given bits newly set, in every case"""
    rest = b_not(eq(b, a))
    for m in masks:
        for c in (mk_bit("or", a, I(m)),):
            rest = b_and(rest, b_not(eq(b, c)))
        rest = b_and(rest, b_not(b_and(eq(b, mk_bit("xor", a, I(m))), bit_clear(a, m))))
    return b_and(e.ok, rest) is FALSE


CLAIM = {"partner_base_fee", "partner_quote_fee"}
TRADE = {"base_reserve", "quote_reserve", "sqrt_price", "creator_base_fee", "creator_quote_fee", "partner_base_fee", "partner_quote_fee",
         "protocol_base_fee", "protocol_quote_fee", "finish_curve_timestamp", "has_swap", "migration_progress", "metrics",
         "volatility_tracker"}
MIGR = {"is_migrated", "migration_progress", "protocol_migration_base_fee_amount", "protocol_migration_quote_fee_amount"}
PROT = {"is_protocol_withdraw_surplus", "protocol_base_fee", "protocol_quote_fee", "protocol_migration_base_fee_amount",
        "protocol_migration_quote_fee_amount"}
FRAME = {
    "swap": TRADE, "swap2": TRADE,
    "claim_trading_fee": CLAIM, "claim_creator_trading_fee": {"creator_base_fee", "creator_quote_fee"},
    "claim_protocol_fee": PROT, "zap_protocol_fee": PROT,
    "claim_partner_pool_creation_fee": {"creation_fee_bits"},
    "claim_protocol_pool_creation_fee": {"creation_fee_bits", "legacy_creation_fee_bits"},
    "create_locker": {"migration_progress"},
    "migrate_meteora_damm": MIGR, "migration_damm_v2": MIGR,
    "partner_withdraw_surplus": {"is_partner_withdraw_surplus"}, "creator_withdraw_surplus": {"is_creator_withdraw_surplus"},
    "transfer_pool_creator": {"creator"}, "withdraw_leftover": {"is_withdraw_leftover"},
    "withdraw_migration_fee": {"migration_fee_withdraw_status"},
}


@prop("C18", floor=60)
def c18(C):
    def f(C, ix):
        e = C.entry(ix)
        for p in of_type(e, VP):
            if ix in INIT:
                continue
            w = e.writes(p)
            for k, v in w.items():
                C.ob(k.split(".")[0] in FRAME.get(ix, ()), e.where(), "the pool field may be changed by this instruction", d(k, v))
            C.ob(True, e.where(), "frame of the pool")
        for c in of_type(e, PC):
            if ix == "create_config":
                continue
            w = e.writes(c)
            C.ob(not w, e.where(), "a config never changes after it is created", d("changes", ", ".join(w)))
        for o in of_type(e, OPERATOR):
            if ix not in ("create_operator_account", "close_operator_account"):
                C.ob(not e.writes(o), e.where(), "an operator's permissions change only through the admin")
        # the pool account is never closed or handed over
        for n in of_type(e, VP) + of_type(e, PC):
            for s in subterms(e.ok):
                if s.op == "call" and short(s.a[0]).endswith("::close") and len(s.a) > 1 and s.a[1] is e.acct(n):
                    C.ob(False, e.where(), "pools and configs are never closed", d("closes", s))
        C.ob(True, e.where(), "no pool or config is closed")

    C.each(C.ixs(), f)
