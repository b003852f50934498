"""Published formats: what is written in accounts, how instructions are called, where accounts live (C28).

format.json holds what the published program stores and takes (written by tools/format.py); the rule compares the current
program with it, matching types by discriminator and fields by place, so a field may be renamed or carved out of padding."""
import hashlib
import json
import os
from .common import *
from .common import b58
from . import prop
from ..spec import CRATE

REC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "format.json")
SCALARS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16, "bool": 1}
KEY = "solana_pubkey::Pubkey"


def pad(name):
    return any(p.lstrip("_").startswith("padding") for p in name.split(".")[-1:])


def flat(types, ty, at=0, name=""):
    """zero-copy layout: [offset, scalar type, dotted name] of every leaf"""
    if ty in SCALARS:
        return [[at, ty, name]]
    if ty == KEY:
        return [[at, "Pubkey", name]]
    t = types[ty]
    if t["k"] == "array":
        out = []
        sz = size(types, t["inner"])
        for i in range(t["len"]):
            out += flat(types, t["inner"], at + i * sz, "%s[%d]" % (name, i))
        return out
    out = []
    v = t["variants"][0]
    for (f, fty), off in zip(v["fields"], t["offsets"]):
        if pad(f):
            continue
        out += flat(types, fty, at + off, name + "." + f if name else f)
    return out


def size(types, ty):
    if ty in SCALARS:
        return SCALARS[ty]
    if ty == KEY:
        return 32
    t = types[ty]
    return size(types, t["inner"]) * t["len"] if t["k"] == "array" else t["size"]


def inner(ty):
    return ty[ty.index("<") + 1:-1]


def wire(types, ty, name=""):
    """serialised (borsh) layout: [type, dotted name] of every leaf in order"""
    if ty in SCALARS:
        return [[ty, name]]
    if ty == KEY:
        return [["Pubkey", name]]
    if ty == "alloc::string::String":
        return [["string", name]]
    if ty.startswith("alloc::vec::Vec<"):
        return [["vec", name]] + wire(types, inner(ty), name + "[]")
    if ty.startswith("core::option::Option<"):
        return [["option", name]] + wire(types, inner(ty), name)
    t = types[ty]
    if t["k"] == "array":
        return [["array%d" % t["len"], name]] + wire(types, t["inner"], name + "[]")
    out = []
    if t["kind"] == "enum":
        out = [["enum%d" % len(t["variants"]), name]]
    for v in t["variants"]:
        for f, fty in v["fields"]:
            n = (name + "." if name else "") + (v["name"] + "." if t["kind"] == "enum" else "") + f
            out += wire(types, fty, n)
    return out


def const_bytes(v):
    return bytes(x[1] for x in v[3][0][3])


def discriminators(C):
    out = {}
    for k, v in C.main.consts.items():
        if k.endswith(" as anchor_lang::Discriminator>::DISCRIMINATOR") and k.startswith("<" + CRATE) and "__idl" not in k:
            out[k[1:].split(" as ")[0]] = bytes(v[1]).hex()
    return out


def collect(C):
    """the formats of the program under analysis"""
    ty = C.main.types
    rec = {"accounts": {}, "data": {}, "numbers": {}, "instructions": {}}
    dead = ("EvtCreateClaimFeeOperator", "EvtPartnerWithdrawMigrationFee", "EvtClaimProtocolLiquidityMigrationFee")
    for p, d in sorted(discriminators(C).items()):
        if p not in ty or p.endswith(dead):      # events nothing announces any more
            continue
        short = p[len(CRATE) + 2:]
        if "IS_C" in ty[p]["repr"]:
            rec["accounts"][d] = {"name": short, "size": ty[p]["size"], "fields": flat(ty, p)}
        else:
            rec["data"][d] = {"name": short, "fields": wire(ty, p)}
    for p, t in sorted(ty.items()):
        if t["k"] == "adt" and t.get("local") and t["kind"] == "enum" and p.startswith(CRATE) and "Fixed" in t["repr"] \
                and all(not v["fields"] for v in t["variants"]) and "__private" not in p:
            rec["numbers"][p.split("::")[-1]] = {v["name"]: v["discr"] for v in t["variants"]}
    return rec


def interface(C, ix):
    e = C.entry(ix)
    return [[n, bool(e.implied(e.is_signer(n))), bool(e.implied(as_bool(fld(e.acct(n), "is_writable"))))] for n in names(e)]


def names(e):
    return [n for _, (n, _) in sorted(e.R.acct_name.items())]


def fields(C, w, was, now, key):
    """every recorded field is still at its place with its type, and no field known by name went elsewhere"""
    have = {key(f): f for f in now}
    place = {f[-1]: f for f in now}
    for f in was:
        g = have.get(key(f))
        C.ob(g is not None and g[:-1] == f[:-1], w, "every field keeps its place and type", lambda: "%s is now %s" % (f, g))
        h = place.get(f[-1])
        C.ob(h is None or key(h) == key(f), w, "no field takes another one's place", lambda: "%s is now at %s" % (f, h))


@prop("C28", floor=400)
def c28(C):
    rec = json.load(open(REC))
    now = collect(C)
    for d, a in rec["accounts"].items():
        w = C.main.types.get(CRATE + "::" + a["name"], {}).get("span") or a["name"]
        b = now["accounts"].get(d)
        C.ob(b is not None, w, "each account type keeps its discriminator and is read in place")
        if b:
            C.ob(b["size"] == a["size"], w, "each account type keeps its size", lambda: "%s, was %s" % (b["size"], a["size"]))
            fields(C, w, a["fields"], b["fields"], lambda f: f[0])
    for d, a in rec["data"].items():
        w = a["name"]
        b = now["data"].get(d)
        C.ob(b is not None, w, "each serialised account, event and instruction keeps its discriminator")
        if b:
            C.ob([f[0] for f in b["fields"]] == [f[0] for f in a["fields"]], w, "serialised fields keep their types and order",
                 lambda: "%s" % [(x, y) for x, y in zip(a["fields"], b["fields"]) if x[0] != y[0]][:2])
            fields(C, w, [[i] + f for i, f in enumerate(a["fields"])], [[i] + f for i, f in enumerate(b["fields"])], lambda f: f[0])
    for n, vs in rec["numbers"].items():
        cur = now["numbers"].get(n)
        if cur is None:
            continue
        for v, k in vs.items():
            C.ob(cur.get(v, k) == k and (n == "PoolError" or k in cur.values()), n, "each coded value keeps its number", lambda: "%s::%s was %d" % (n, v, k))
    ids = [v for k, v in C.main.consts.items() if k.endswith(("::ID_CONST", "const_pda::pool_authority::ID"))]
    for v in ids:
        C.ob(const_bytes(v) in (b58(PROGRAM), b58(POOL_AUTHORITY)), "lib.rs, const_pda.rs", "the program and its authority keep their addresses")
    C.ob(hashlib.sha256(b"pool_authority" + bytes([255]) + b58(PROGRAM) + b"ProgramDerivedAddress").digest() == b58(POOL_AUTHORITY),
         "const_pda.rs", "the authority is the address derived from the program")
    C.each(sorted(rec["instructions"]), one)


def one(C, ix):
    rec = json.load(open(REC))["instructions"][ix]
    cur = interface(C, ix)
    w = C.entry(ix).where()
    C.ob(len(cur) == len(rec), w, "each instruction takes the published accounts", lambda: "%d, was %d" % (len(cur), len(rec)))
    pos = {n: i for i, (n, _, _) in enumerate(cur)}
    for i, (n, sign, write) in enumerate(rec):
        C.ob(pos.get(n, i) == i, w, "accounts keep their order", lambda: "%s is now number %s" % (n, pos.get(n)))
        if i < len(cur):
            C.ob(sign or not cur[i][1], w, "no further signature is asked for", lambda: n)
            C.ob(write or not cur[i][2], w, "no further write access is asked for", lambda: n)
    addresses(C, C.entry(ix))


# --------------------------------------------------------------------------------------------- addresses
def byte(s):
    return [I(x) for x in s]


def seed(s):
    return mk("arr", *byte(s))


def addresses(C, e):
    K = lambda n: fld(e.key_of(n), "0")
    hi = lambda a, b: fld(mk("max", e.key_of(a), e.key_of(b)), "0")
    lo = lambda a, b: fld(mk("min", e.key_of(a), e.key_of(b)), "0")
    pair = (hi("base_mint", "quote_mint"), lo("base_mint", "quote_mint")) if e.ix.startswith("initialize_virtual_pool") else ()
    want = {
        "initialize_virtual_pool_with_spl_token": {
            "pool": lambda: [b"pool", K("config")] + list(pair),
            "base_vault": lambda: [b"token_vault", K("base_mint"), K("pool")],
            "quote_vault": lambda: [b"token_vault", K("quote_mint"), K("pool")]},
        "create_operator_account": {"operator": lambda: [b"operator", K("whitelisted_address")]},
        "create_partner_metadata": {"partner_metadata": lambda: [b"partner_metadata", K("fee_claimer")]},
        "create_virtual_pool_metadata": {"virtual_pool_metadata": lambda: [b"virtual_pool_metadata", K("virtual_pool")]},
        "migration_meteora_damm_create_metadata": {"migration_metadata": lambda: [b"meteora", K("virtual_pool")]},
        "create_locker": {"base": lambda: [b"base_locker", K("virtual_pool")]},
    }
    want["initialize_virtual_pool_with_token2022"] = want["initialize_virtual_pool_with_spl_token"]
    todo = dict(want.get(e.ix, {}))
    if "event_authority" in e.accts:
        todo["event_authority"] = lambda: [b"__event_authority"]
    for n, f in todo.items():
        parts = [seed(x) if isinstance(x, bytes) else x for x in f()]
        t = mk("pda", mk("arr", *parts), mk("deref", mk("sym", "program_id")))
        C.ob(any(x is t or e.same(x, t) for x in e.equals(e.key_of(n)) if any(s.op == "pda" for s in subterms(x))) or e.implied(eq(e.key_of(n), t)),
             e.where(), "accounts live at the published addresses",
             lambda: "%s: %s" % (n, [show(x, 8)[:200] for x in e.equals(e.key_of(n))]))
