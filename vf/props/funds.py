"""Money leaving the pool: claims, surplus, migration fee, leftover, creation fee; state machine and frames."""
from . import prop
from .common import *


def vault_flows(e):
    """(base out, quote out) from the pool's vaults, as terms"""
    p = pool(e)
    return flow(e, src=e.pre(p, "base_vault")), flow(e, src=e.pre(p, "quote_vault"))


def vterm(e, which):
    """the pool's vault key, in the form the program resolved it to"""
    return e.pre(pool(e), which)


def outflow(e, which, under=None):
    """total moved out of the pool's vault `which`, under success"""
    tot = I(0)
    v = e.equals(vterm(e, which))
    for t in e.transfers:
        c = FALSE
        for k in v:
            c = b_or(c, eq(t.src, k))
        c = b_and(t.pc, c)
        if b_and(e.ok, c) is not FALSE:
            tot = mk_add(tot, e.given(ite(c, t.amount, I(0))))
    return tot


def apart(e):
    """the pool's two vaults are different accounts (they are created at different addresses)"""
    c = TRUE
    for x in e.equals(vterm(e, "base_vault")):
        for y in e.equals(vterm(e, "quote_vault")):
            c = b_and(c, b_not(eq(x, y)))
    return c


def expect_out(C, e, which, amount, dst=None, what="", under=None):
    got = outflow(e, which)
    under = apart(e) if under is None else b_and(under, apart(e))
    C.ob(e.same(got, amount, under), e.where(), "moves exactly %s out of the %s" % (what, which), d("moved", got, "expected", amount))
    if dst is not None:
        for t in e.transfers:
            for k in e.equals(vterm(e, which)):
                c = b_and(t.pc, eq(t.src, k))
                if b_and(e.ok, c) is not FALSE:
                    C.ob(e.same(t.dst, dst, c), e.where(), "pays %s to the right account" % what, d("destination", t.dst, "expected", dst))


def claim_rule(C, e, base_bucket, quote_bucket, base_max, quote_max):
    p = pool(e)
    b, q = e.pre(p, base_bucket), e.pre(p, quote_bucket)
    ba, qa = mk_min(b, base_max), mk_min(q, quote_max)
    expect_out(C, e, "base_vault", ba, what="min(requested, accrued base fee)")
    expect_out(C, e, "quote_vault", qa, what="min(requested, accrued quote fee)")
    for f, a in ((base_bucket, ba), (quote_bucket, qa)):
        C.ob(e.same(e.post(p, f), mk_sub(e.pre(p, f), a)), e.where(), "the accrued fee drops by what was paid", d(f, e.post(p, f)))
    frame(C, e, p, (base_bucket, quote_bucket), "pool")


def protocol_base(e, maxa):
    p = pool(e)
    t = mk_min(e.pre(p, "protocol_base_fee"), maxa)
    m = mk_min(e.pre(p, "protocol_migration_base_fee_amount"), mk_sub(maxa, t))
    return t, m


def protocol_quote(e, maxa):
    p = pool(e)
    t = mk_min(e.pre(p, "protocol_quote_fee"), maxa)
    m = mk_min(e.pre(p, "protocol_migration_quote_fee_amount"), mk_sub(maxa, t))
    return t, m


def surplus(e):
    """(total, partner+creator part, protocol part)"""
    tot = mk_sub(e.pre(pool(e), "quote_reserve"), e.pre(config(e), "migration_quote_threshold"))
    pc = mk_div(mk_mul(tot, I(80)), I(100))
    return tot, pc, mk_sub(tot, pc)


def creator_part(e, x):
    """creator's share of a partner+creator amount"""
    pct = e.pre(config(e), "creator_trading_fee_percentage")
    return ite(eq(pct, I(0)), I(0), mk_div(mk_mul(x, pct), I(100)))


def complete(e):
    return b_not(lt(e.pre(pool(e), "quote_reserve"), e.pre(config(e), "migration_quote_threshold")))


def surplus_due(e):
    return b_and(eq(e.pre(pool(e), "is_protocol_withdraw_surplus"), I(0)), complete(e))


@prop("C07", floor=30)
def c07(C):
    def f(C, ix):
        e = C.entry(ix)
        p = pool(e)
        if ix == "claim_trading_fee":
            claim_rule(C, e, "partner_base_fee", "partner_quote_fee", e.arg("max_amount_a"), e.arg("max_amount_b"))
        elif ix == "claim_creator_trading_fee":
            claim_rule(C, e, "creator_base_fee", "creator_quote_fee", e.arg("max_base_amount"), e.arg("max_quote_amount"))
        elif ix == "claim_protocol_fee":
            bt, bm = protocol_base(e, e.arg("max_base_amount"))
            qt, qm = protocol_quote(e, e.arg("max_quote_amount"))
            tot, pcs, proto = surplus(e)
            s = ite(surplus_due(e), proto, I(0))
            expect_out(C, e, "base_vault", mk_add(bt, bm), what="the claimed protocol base fee")
            expect_out(C, e, "quote_vault", mk_add(mk_add(qt, qm), s), what="the claimed protocol quote fee and surplus")
            for fl, a in (("protocol_base_fee", bt), ("protocol_migration_base_fee_amount", bm), ("protocol_quote_fee", qt),
                          ("protocol_migration_quote_fee_amount", qm)):
                C.ob(e.same(e.post(p, fl), mk_sub(e.pre(p, fl), a)), e.where(), "the accrued fee drops by what was paid", d(fl, e.post(p, fl)))
            frame(C, e, p, ("protocol_base_fee", "protocol_migration_base_fee_amount", "protocol_quote_fee",
                            "protocol_migration_quote_fee_amount", "is_protocol_withdraw_surplus"), "pool")
        else:
            m = e.arg("max_amount")
            isb = eq(e.key_of("token_mint"), e.pre(p, "base_mint"))
            bt, bm = protocol_base(e, m)
            qt, qm = protocol_quote(e, m)
            tot, pcs, proto = surplus(e)
            s = ite(surplus_due(e), proto, I(0))
            zero = I(0)
            expect_out(C, e, "base_vault", mk_add(bt, bm), what="the claimed protocol base fee", under=isb)
            expect_out(C, e, "quote_vault", mk_add(mk_add(qt, qm), s), what="the claimed protocol quote fee and surplus", under=b_not(isb))
            for fl, a, c in (("protocol_base_fee", bt, isb), ("protocol_migration_base_fee_amount", bm, isb), ("protocol_quote_fee", qt, b_not(isb)),
                             ("protocol_migration_quote_fee_amount", qm, b_not(isb))):
                C.ob(e.same(e.post(p, fl), mk_sub(e.pre(p, fl), ite(c, a, zero))), e.where(), "the accrued fee drops by what was paid", d(fl, e.post(p, fl)))
            frame(C, e, p, ("protocol_base_fee", "protocol_migration_base_fee_amount", "protocol_quote_fee",
                            "protocol_migration_quote_fee_amount", "is_protocol_withdraw_surplus"), "pool")

    C.each(["claim_trading_fee", "claim_creator_trading_fee", "claim_protocol_fee", "zap_protocol_fee"], f)


@prop("C08", floor=14)
def c08(C):
    def f(C, ix):
        e = C.entry(ix)
        p = pool(e)
        tot, pcs, proto = surplus(e)
        flag = {"partner_withdraw_surplus": "is_partner_withdraw_surplus", "creator_withdraw_surplus": "is_creator_withdraw_surplus"}.get(
            ix, "is_protocol_withdraw_surplus")
        if ix in ("partner_withdraw_surplus", "creator_withdraw_surplus"):
            cr = creator_part(e, pcs)
            amt = cr if ix.startswith("creator") else mk_sub(pcs, cr)
            C.ob(e.implied(complete(e)), e.where(), "surplus is paid only after the curve is complete")
            C.ob(e.implied(eq(e.pre(p, flag), I(0))), e.where(), "surplus is paid at most once")
            C.ob(e.same(e.post(p, flag), I(1)), e.where(), "the payout is recorded", d(flag, e.post(p, flag)))
            expect_out(C, e, "quote_vault", amt, what="the %s's share of the surplus" % ix.split("_")[0], dst=e.key_of("token_quote_account"))
            expect_out(C, e, "base_vault", I(0), what="nothing") if "base_vault" in e.accts else None
            frame(C, e, p, (flag,), "pool")
        else:
            due = surplus_due(e)
            if ix == "zap_protocol_fee":
                due = b_and(due, b_not(eq(e.key_of("token_mint"), e.pre(p, "base_mint"))))
            C.ob(e.same(e.post(p, flag), ite(due, I(1), e.pre(p, flag))), e.where(),
                 "the protocol's surplus payout is recorded exactly when it is paid", d(flag, e.post(p, flag)))
            q = outflow(e, "quote_vault")
            qt, qm = protocol_quote(e, e.arg("max_quote_amount" if ix == "claim_protocol_fee" else "max_amount"))
            base = mk_add(qt, qm)
            C.ob(e.same(q, mk_add(base, proto), b_and(due, apart(e))), e.where(), "the protocol is paid the remaining fifth of the surplus", d("moved", q))
            nd = b_and(b_not(due), b_not(eq(e.key_of("token_mint"), e.pre(p, "base_mint")))) if ix == "zap_protocol_fee" else b_not(due)
            C.ob(e.same(q, base, b_and(nd, apart(e))), e.where(), "no surplus is paid twice or before completion", d("moved", q))

    C.each(["partner_withdraw_surplus", "creator_withdraw_surplus", "claim_protocol_fee", "zap_protocol_fee"], f)


@prop("C09", floor=12)
def c09(C):
    e = C.entry("withdraw_migration_fee")
    p, c = pool(e), config(e)
    q, pct, cpct = e.pre(c, "migration_quote_threshold"), e.pre(c, "migration_fee_percentage"), e.pre(c, "creator_migration_fee_percentage")
    # quote tokens reserved for migration = ceil(q * (100 - pct) / 100); the fee is the rest
    fee = mk_sub(q, mk_divc(mk_mul(q, mk_sub(I(100), pct)), I(100)))
    creator = mk_div(mk_mul(fee, cpct), I(100))
    partner = mk_sub(fee, creator)
    fl = e.arg("flag")
    C.ob(e.implied(complete(e)), e.where(), "the migration fee is paid only after the curve is complete")
    C.ob(e.implied(b_or(eq(fl, I(0)), eq(fl, I(1)))), e.where(), "only the partner and the creator are paid")
    for v, nm, amt, m in ((0, "partner", partner, 4), (1, "creator", creator, 2)):
        u = eq(fl, I(v))
        st = "migration_fee_withdraw_status"
        C.ob(e.implied(bit_clear(e.pre(p, st), m), u), e.where(), "the %s is paid at most once" % nm)
        C.ob(bit_set_to(e, e.pre(p, st), e.post(p, st), m, u), e.where(), "the payout to the %s is recorded" % nm, d(st, e.post(p, st)))
        expect_out(C, e, "quote_vault", amt, what="the %s's part of the migration fee" % nm, dst=e.key_of("token_quote_account"), under=u)
    frame(C, e, p, ("migration_fee_withdraw_status",), "pool")


@prop("C31", floor=8)
def c31(C):
    e = C.entry("withdraw_leftover")
    p, c = pool(e), config(e)
    C.ob(e.implied(eq(e.pre(p, "migration_progress"), I(3))), e.where(), "leftover is paid only after migration")
    C.ob(e.implied(eq(e.pre(c, "fixed_token_supply_flag"), I(1))), e.where(), "leftover exists only for fixed-supply tokens")
    C.ob(e.implied(eq(e.pre(p, "is_withdraw_leftover"), I(0))), e.where(), "leftover is paid at most once")
    C.ob(e.same(e.post(p, "is_withdraw_leftover"), I(1)), e.where(), "the payout is recorded")
    amt = e.pre("base_vault", "amount")
    for f in ("partner_base_fee", "protocol_base_fee", "creator_base_fee", "protocol_migration_base_fee_amount"):
        amt = mk_sub(amt, e.pre(p, f))
    expect_out(C, e, "base_vault", amt, dst=e.key_of("token_base_account"), what="the vault balance minus every unclaimed base fee")
    lr = e.pre(c, "leftover_receiver")
    C.ob(any(e.implied(eq(e.pre("token_base_account", "owner"), x)) for x in e.equals(lr)), e.where(),
         "the destination belongs to the configured leftover receiver")
    frame(C, e, p, ("is_withdraw_leftover",), "pool")


def lamports(e):
    """[(from account term, to, amount, pc)] lamport movements by direct balance edits, paired"""
    subs = [m for m in lamport_moves(e) if m[0] == "sub"]
    adds = [m for m in lamport_moves(e) if m[0] == "add"]
    return subs, adds


def lam_total(e, ms, acct):
    t = I(0)
    for _, a, amt, pc in ms:
        if a is acct:
            t = mk_add(t, e.given(ite(pc, amt, I(0))))
    return t


@prop("C32", floor=16)
def c32(C):
    def split(e):
        fee = e.pre(config(e), "pool_creation_fee")
        proto = mk_div(mk_mul(fee, I(10)), I(100))
        return proto, mk_sub(fee, proto)

    e = C.entry("claim_partner_pool_creation_fee")
    p = pool(e)
    proto, partner = split(e)
    subs, adds = lamports(e)
    C.ob(e.implied(bit_clear(e.pre(p, "creation_fee_bits"), 2)), e.where(), "the partner is paid at most once")
    C.ob(bit_set_to(e, e.pre(p, "creation_fee_bits"), e.post(p, "creation_fee_bits"), 2), e.where(), "the payout is recorded",
         d("creation_fee_bits", e.post(p, "creation_fee_bits")))
    C.ob(e.same(lam_total(e, subs, e.acct(p)), partner), e.where(), "the pool pays the partner's 90% of the creation fee", d("paid", lam_total(e, subs, e.acct(p))))
    C.ob(e.same(lam_total(e, adds, e.acct("fee_receiver")), partner), e.where(), "the named receiver gets what the pool pays")
    C.ob(len(subs) == 1 and len(adds) == 1, e.where(), "no other lamport movement")
    frame(C, e, p, ("creation_fee_bits",), "pool")

    e = C.entry("claim_protocol_pool_creation_fee")
    p = pool(e)
    proto, partner = split(e)
    subs, adds = lamports(e)
    cb, lb = e.pre(p, "creation_fee_bits"), e.pre(p, "legacy_creation_fee_bits")
    due = bit_clear(cb, 1)
    ldue = b_and(b_not(bit_clear(lb, 1)), bit_clear(lb, 2))
    amt = mk_add(ite(due, proto, I(0)), ite(ldue, I(10_000_000), I(0)))
    C.ob(e.same(lam_total(e, subs, e.acct(p)), amt), e.where(), "the pool pays the unclaimed protocol part (10%, plus the legacy fee once)",
         d("paid", lam_total(e, subs, e.acct(p)), "expected", amt))
    C.ob(e.same(lam_total(e, adds, e.acct("treasury")), amt), e.where(), "the treasury gets what the pool pays")
    C.ob(e.implied(key_is(e, "treasury", pubkey(TREASURY))), e.where(), "the receiver is the protocol treasury")
    C.ob(bit_set_to(e, cb, e.post(p, "creation_fee_bits"), 1, due), e.where(), "the payout is recorded")
    C.ob(e.same(e.post(p, "creation_fee_bits"), cb, b_not(due)), e.where(), "an already recorded payout stays recorded")
    C.ob(bit_set_to(e, lb, e.post(p, "legacy_creation_fee_bits"), 2, ldue), e.where(), "the legacy payout is recorded")
    C.ob(e.same(e.post(p, "legacy_creation_fee_bits"), lb, b_not(ldue)), e.where(), "an already recorded legacy payout stays recorded")
    C.ob(all(a is e.acct("treasury") for _, a, _, _ in adds) and all(a is e.acct(p) for _, a, _, _ in subs), e.where(), "no other lamport movement")
    frame(C, e, p, ("creation_fee_bits", "legacy_creation_fee_bits"), "pool")
    for ix in ("claim_partner_pool_creation_fee", "claim_protocol_pool_creation_fee"):
        e = C.entry(ix)
        C.ob(rent_kept(e), e.where(), "the pool keeps its rent-exempt balance")


def rent_kept(e):
    """on success after a withdrawal the pool's lamports are compared with the minimum balance of its size"""
    p = e.acct(pool(e))
    subs, _ = lamports(e)
    for s in subterms(e.ok):
        if s.op == "ite" and s.a[0].op == "lt":
            x, y = s.a[0].a
            if x.op == "lamports" and x.a[0] is p and y.op == "minbal" and y.a[0] is I(424):
                paid = FALSE
                for _, a, amt, pc in subs:
                    if a is p:
                        paid = b_or(paid, pc)
                if e.implied(b_not(atom_bool(s.a[0])), paid):
                    return True
    return False
