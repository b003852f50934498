"""Who may do what: admin, operator, partner and creator authority."""
from . import prop
from .common import *

ADMIN_IX = ("create_operator_account", "close_operator_account", "close_claim_protocol_fee_operator")


def touches(e, tys):
    """accounts of the given state types that the instruction writes, creates or closes"""
    out = []
    for n in e.written_accounts():
        if any(t in e.accts.get(n, "").replace(" ", "") for t in tys) and e.writes(n):
            out.append((n, "written"))
    for n, cs in ((n, e.R.acct_ctor.get(mk("acct", n), ())) for n in e.accts):
        if "try_from_unchecked" in cs and any(t in e.accts[n] for t in tys):
            out.append((n, "created"))
    for s in subterms(e.ok):
        if s.op == "call" and "AccountsClose" in s.a[0] and s.a[0].endswith("close"):
            a = s.a[1]
            if a.op == "acct" and any(t in e.accts.get(a.a[0], "") for t in tys):
                out.append((a.a[0], "closed"))
    return out


@prop("C01", floor=30)
def c01(C):
    admins = [pubkey(k) for k in ADMINS]

    def admin(C, ix):
        e = C.entry(ix)
        C.ob(signed_by_any(e, admins), e.where(), "succeeds only when an admin key signed",
             lambda: "signers: %s" % signers(e))

    def other(C, ix):
        e = C.entry(ix)
        t = touches(e, (OPERATOR, CFO))
        C.ob(ix in ADMIN_IX or not t, e.where(), "does not write, create or close operator accounts", str(t))
        if ix in ADMIN_IX:
            admin(C, ix)
            C.ob(bool(t), e.where(), "manages an operator account")
        if ix == "create_operator_account":
            n = one(e, OPERATOR, "operator")
            wl = e.key_of("whitelisted_address")
            C.ob(e.implied(eq(e.key_of(n), mk("pda", mk("arr", bytesarr(b"operator"), fld(wl, "0")), mk("deref", mk("sym", "program_id"))))),
                 e.where(), "the operator account is the address derived from the whitelisted key")
            C.ob(e.same(e.post(n, "whitelisted_address"), wl), e.where(), "records the whitelisted key",
                 d("whitelisted_address", e.post(n, "whitelisted_address")))
            C.ob(e.same(e.post(n, "permission"), e.arg("permission")), e.where(), "records exactly the requested permissions",
                 d("permission", e.post(n, "permission")))

    for ix in ADMIN_IX:
        if ix not in C.ixs():
            raise Missing("instruction " + ix)
    C.each(C.ixs(), other)


OPERATOR_IX = (("claim_protocol_fee", 1), ("claim_protocol_pool_creation_fee", 1), ("zap_protocol_fee", 2))


@prop("C02", floor=8)
def c02(C):
    def f(C, x):
        ix, bit = x
        e = C.entry(ix)
        op = one(e, OPERATOR, "operator")
        C.ob(signed_by(e, e.pre(op, "whitelisted_address")), e.where(), "the operator account's whitelisted key signed",
             lambda: "signers: %s" % signers(e))
        C.ob(e.implied(b_not(bit_clear(e.pre(op, "permission"), bit))), e.where(),
             "the operator holds the permission for this operation", "permission bit value %d" % bit)

    C.each(list(OPERATOR_IX), f)
    e = C.entry("create_operator_account")
    p = e.arg("permission")
    C.ob(e.implied(lt(I(0), p)), e.where(), "an operator has at least one permission")
    C.ob(e.implied(lt(p, I(4))), e.where(), "an operator holds no undefined permission bit")


PARTNER_IX = ("claim_trading_fee", "claim_partner_pool_creation_fee", "partner_withdraw_surplus")
CREATOR_IX = ("create_virtual_pool_metadata", "claim_creator_trading_fee", "creator_withdraw_surplus", "transfer_pool_creator")


@prop("C03", floor=12)
def c03(C):
    def f(C, ix):
        e = C.entry(ix)
        if ix in PARTNER_IX:
            C.ob(signed_by(e, e.pre(config(e), "fee_claimer")), e.where(), "the config's fee claimer signed",
                 lambda: "signers: %s" % signers(e))
            C.ob(e.implied(eq(e.pre(pool(e), "config"), e.key_of(config(e)))), e.where(), "the config is the pool's own")
        elif ix in CREATOR_IX:
            C.ob(signed_by(e, e.pre(pool(e), "creator")), e.where(), "the pool's creator signed", lambda: "signers: %s" % signers(e))
        else:
            fl = e.arg("flag")
            for v, who, nm in ((0, e.pre(config(e), "fee_claimer"), "partner"), (1, e.pre(pool(e), "creator"), "creator")):
                C.ob(signed_by(e, who, eq(fl, I(v))), e.where(), "the %s signed for the %s share" % (nm, nm))
            C.ob(e.implied(b_or(eq(fl, I(0)), eq(fl, I(1)))), e.where(), "no third kind of sender is accepted")
            C.ob(e.implied(eq(e.pre(pool(e), "config"), e.key_of(config(e)))), e.where(), "the config is the pool's own")
        if ix == "transfer_pool_creator":
            p = pool(e)
            C.ob(e.same(e.post(p, "creator"), e.key_of("new_creator")), e.where(), "the named account becomes the creator",
                 d("creator", e.post(p, "creator")))
            frame(C, e, p, ("creator",), "pool")
            mp, opt = e.pre(p, "migration_progress"), e.pre(config(e), "migration_option")
            C.ob(e.implied(b_or(eq(mp, I(0)), eq(mp, I(3)))), e.where(), "the creator cannot change during migration")
            C.ob(e.differ(e.key_of("new_creator"), e.pre(p, "creator")), e.where(), "the new creator is a different key")
            # after a DAMM v1 migration: only once all LP tokens have been claimed and locked
            metas = [n for n, t in list(e.accts.items()) + list(e.extra.items()) if D1META in t]
            C.ob(len(metas) == 1, e.where(), "reads the migration metadata")
            for n in metas:
                und = b_and(eq(mp, I(3)), eq(opt, I(0)))
                C.ob(e.implied(eq(e.pre(n, "virtual_pool"), e.key_of(p)), und), e.where(), "the metadata is this pool's")
                for liq, st in (("partner_locked_liquidity", "partner_locked_status"), ("creator_locked_liquidity", "creator_locked_status"),
                                ("partner_liquidity", "partner_claim_status"), ("creator_liquidity", "creator_claim_status")):
                    C.ob(e.implied(b_or(eq(e.pre(n, liq), I(0)), eq(e.pre(n, st), I(1))), und), e.where(),
                         "the creator changes only after all migrated liquidity is locked or claimed", liq)
        if ix == "create_virtual_pool_metadata":
            C.ob(not e.writes(pool(e)), e.where(), "metadata creation leaves the pool unchanged")

    def creator_frame(C, ix):
        e = C.entry(ix)
        for n in of_type(e, VP):
            ctor = e.R.acct_ctor.get(mk("acct", n), ())
            if "try_from_unchecked" in ctor:
                continue
            w = e.writes(n)
            C.ob(ix == "transfer_pool_creator" or not ({"creator", "config", ""} & set(w)), e.where(),
                 "no other instruction changes a pool's creator or config", str(sorted(w)))

    def both(C, ix):
        if ix in PARTNER_IX + CREATOR_IX + ("withdraw_migration_fee",):
            f(C, ix)
        creator_frame(C, ix)
    for ix in PARTNER_IX + CREATOR_IX + ("withdraw_migration_fee",):
        if ix not in C.ixs():
            raise Missing("instruction " + ix)
    C.each(C.ixs(), both)
