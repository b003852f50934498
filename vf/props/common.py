"""Vocabulary shared by the rules: account roles, constants, flows."""
from ..spec import *
from .. import builtins as B

VP = "state::virtual_pool::VirtualPool"
PC = "state::config::PoolConfig"
OPERATOR = "state::operator::Operator"
CFO = "state::claim_fee_operator::ClaimFeeOperator"
D1META = "MeteoraDammMigrationMetadata"

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return n.to_bytes(32, "big")


def bytesarr(b):
    return mk("arr", *[I(x) for x in b])


def pubkey(s):
    b = b58(s) if isinstance(s, str) else s
    return adt("solana_pubkey::Pubkey", "Pubkey", 0, (("0", bytesarr(b)),))


PROGRAM = "dbcij3LWUppWqq96dh6gJWwBifmcGfLSB5D4DuSMaqN"
ADMINS = ("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi", "DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX")
TREASURY = "6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm"
POOL_AUTHORITY = "FhVo3mqL8PW5pH5U2CN4XE33DokiyZnUwuGpH2hmHLuM"
SPL_TOKEN = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"
SPL_TOKEN_2022 = "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"


def pool_auth():
    return pubkey(POOL_AUTHORITY)


def of_type(e, ty):
    """the accounts of an entry whose wrapper is typed with the given state struct"""
    return [n for n, t in e.accts.items() if ty + ">" in t.replace(" ", "") and not n.startswith("#")]


def one(e, ty, what):
    ns = of_type(e, ty)
    if len(ns) != 1:
        raise Missing("%s account of %s (%d candidates)" % (what, e.where(), len(ns)))
    return ns[0]


def pool(e):
    return one(e, VP, "pool")


def config(e):
    return one(e, PC, "config")


def key_is(e, n, k):
    return eq(e.key_of(n), k)


def signers(e):
    return [n for n, t in e.accts.items() if "signer::Signer<" in t]


def signed_by(e, who, under=None):
    """some Signer account is known to be `who` at every successful end"""
    return any(e.implied(eq(e.key_of(s), w), under) for s in signers(e) for w in [who])


def signed_by_any(e, whos):
    for s in signers(e):
        c = FALSE
        for w in whos:
            c = b_or(c, eq(e.key_of(s), w))
        if e.implied(c):
            return True
    return False


def flow(e, src=None, dst=None, under=None):
    """total amount moved by the token transfers whose source / destination key is the given term"""
    tot = I(0)
    for t in e.transfers:
        c = t.pc
        if src is not None:
            c = b_and(c, eq(t.src, src))
        if dst is not None:
            c = b_and(c, eq(t.dst, dst))
        tot = mk_add(tot, ite(c, t.amount, I(0)))
    return tot


def same(e, a, b, under=None):
    return e.same(a, b, under)


def d(*kv):
    """lazy detail text"""
    return lambda: "; ".join("%s = %s" % (k, show(v, 9)[:600] if isinstance(v, T) else v) for k, v in zip(kv[::2], kv[1::2]))


def bit_clear(x, m):
    return eq(mk_bit("and", x, I(m)), I(0))


def bit_set_to(e, pre, post, m, under=None):
    """post is pre with bit m newly set (given that it was clear)"""
    c = e.ok if under is None else b_and(e.ok, under)
    cands = [mk_bit("xor", pre, I(m)), mk_bit("or", pre, I(m)), mk_add(pre, I(m))]
    return any(ite(c, post, UNIT) is ite(c, x, UNIT) for x in cands)


def frame(C, e, n, allowed, what=None):
    """nothing of account n changes but the allowed fields"""
    w = e.writes(n)
    for k, v in w.items():
        C.ob(k in allowed, e.where(), "leaves every other field of the %s unchanged" % (what or n), d("changes", k, "to", v))
    C.ob(all(k in allowed for k in w), e.where(), "frame of the %s" % (what or n))


def lamport_moves(e):
    """[(op, account term, amount, pc)] of direct lamport changes"""
    out = []
    for ev in e.events:
        if ev.name.endswith(("Lamports::sub_lamports", "Lamports::add_lamports")) or short(ev.name) in (
                "Lamports::sub_lamports", "Lamports::add_lamports"):
            out.append(("sub" if "sub_lamports" in ev.name else "add", ev.vals[0], ev.vals[1], ev.pc))
    return out
