"""Models of library functions.  Everything here is a value-level contract of core/anchor/solana/ruint functions; anything
not listed is either inlined from its own MIR or left opaque (its result is then an uninterpreted term)."""
import re
from .terms import *

PRIM = re.compile(r"^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool|char)$")
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64,
        "i128": 128, "isize": 64}
CHAIN0 = mk("chain0")
LAM = ("S", "chain")     # pseudo-root: version of on-chain state as changed by CPIs

LEAF_ACCOUNTS = ("anchor_lang::accounts::", "unchecked_account::", "solana_account_info::AccountInfo")

PURE_PREFIX = ("core::", "std::", "alloc::", "<core::", "<alloc::", "<std::", "anchor_lang::error", "<anchor_lang::error",
               "solana_msg::", "ruint::", "<ruint", "solana_pubkey::", "<solana_pubkey", "num_", "<num_", "borsh::",
               "<T as core", "<U as core", "solana_program_error", "solana_instruction::", "<solana_instruction",
               "solana_program::instruction::", "solana_program_option", "<solana_program_option", "bytemuck::",
               "spl_associated_token_account_client", "solana_rent::", "anchor_lang::Id", "solana_instructions_sysvar",
               "solana_sysvar", "spl_token_2022::extension::", "<spl_token_2022::extension", "solana_account_info::",
               "<solana_account_info", "spl_token_2022::instruction::", "solana_system_interface::instruction::",
               "spl_token_2022::native_mint", "anchor_spl::token::accessor", "anchor_spl::token_interface::",
               "anchor_lang::ToAccount", "anchor_lang::accounts::", "<anchor_lang::accounts::", "anchor_lang::Accounts",
               "anchor_lang::context", "hex_literal", "<bool as", "<u", "<i", "<&", "mpl_token_metadata::")
EFFECT_EXACT = ("invoke", "invoke_signed", "solana_account_info::AccountInfo::<'a>::realloc")


def is_pure(name):
    if name.startswith(("dynamic_bonding_curve", "<dynamic_bonding_curve")):
        return True
    if name.endswith(("::invoke", "::invoke_signed")):
        return False
    if name.endswith(("AccountsClose::close", "load_init", "sub_lamports", "add_lamports")):
        return False
    return name.startswith(PURE_PREFIX)


def is_stateful(name):
    return True


def no_havoc(name):
    return name.startswith(("anchor_lang::", "<anchor_lang", "solana_program::program")) or "fmt" in name


_INL = ("core::option::", "core::result::", "<core::option", "<core::result", "core::ops::function", "core::mem::drop",
        "core::cmp::PartialOrd", "core::cmp::Ord", "core::cmp::PartialEq", "core::cmp::min", "core::cmp::max",
        "core::cmp::impls", "core::convert", "<T as core::convert", "<U as core::convert", "core::bool::", "core::array::",
        "core::mem::")


def inline_extern(path):
    return path.startswith(_INL)


# ------------------------------------------------------------------ values
def Ok(v):
    return adt("Result", "Ok", 0, [("0", v)])


ERR = adt("Result", "Err", 1, [("0", ERRTOK)])


def Some(v):
    return adt("Option", "Some", 1, [("0", v)])


NONE = adt("Option", "None", 0, ())


def tup(*v):
    return adt("()", "", 0, [(str(i), x) for i, x in enumerate(v)])


def is_err(v):
    """boolean DAG: a Result term is Err"""
    d = discr_of(v, (("Ok", 0), ("Err", 1)))
    return as_bool(d)


def is_none(v):
    return b_not(as_bool(discr_of(v, (("None", 0), ("Some", 1)))))


# local functions used as analysis boundaries: pure, their value is what matters, failure aborts the instruction
NUMERIC = set()


def aborting(l):
    """an opaque call whose failure already aborts the transaction (a CPI), or a numeric boundary function"""
    return l.op == "call" and isinstance(l.a[0], str) and (l.a[0] in NUMERIC or not is_pure(l.a[0])) \
        and not l.a[0].startswith("protocol_zap::")


def branch1(l, opt):
    C = lambda x: adt("ControlFlow", "Continue", 0, [("0", x)])
    if l is UNDEF:
        return l
    if l.op == "chk":
        return C(l.a[1])
    if opt:
        br = adt("ControlFlow", "Break", 1, [("0", NONE)])
        return ite(is_none(l), br, C(fld(as_var(l, "Some", 1), "0")))
    br = adt("ControlFlow", "Break", 1, [("0", ERR)])
    if aborting(l):
        return C(fld(as_var(l, "Ok", 0), "0"))
    return ite(is_err(l), br, C(fld(as_var(l, "Ok", 0), "0")))


def o2r(l):
    if l is UNDEF:
        return l
    if l.op == "chk":
        return chk("Result", l.a[1], l.a[2])
    return ite(is_none(l), ERR, Ok(fld(as_var(l, "Some", 1), "0")))


def r2o(l):
    if l is UNDEF:
        return l
    if l.op == "chk":
        return chk("Option", l.a[1], l.a[2])
    return ite(is_err(l), NONE, Some(fld(as_var(l, "Ok", 0), "0")))


def unchk(l):
    if l.op == "chk":
        return Some(l.a[1]) if l.a[0] == "Option" else Ok(l.a[1])
    if aborting(l):
        return Ok(fld(as_var(l, "Ok", 0), "0"))
    return l


def maxint(bits, signed=False):
    return (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1


def upper(t, depth=0):
    """a sound constant upper bound of an unsigned term, or None"""
    if t.op == "int":
        return t.a[0]
    if depth > 12:
        return None
    if t.op == "and":
        b = [upper(x, depth + 1) for x in t.a]
        b = [x for x in b if x is not None]
        return min(b) if b else None
    if t.op == "trunc":
        return (1 << t.a[1]) - 1
    if t.op == "ite":
        b = [upper(x, depth + 1) for x in leaves(t) if x is not UNDEF]
        return max(b) if b and all(x is not None for x in b) else None
    if t.op == "min":
        b = [x for x in (upper(x, depth + 1) for x in t.a) if x is not None]
        return min(b) if b else None
    if t.op == "rem" and t.a[1].op == "int":
        return max(t.a[1].a[0] - 1, 0)
    if t.op == "div":
        u = upper(t.a[0], depth + 1)
        if u is not None and t.a[1].op == "int" and t.a[1].a[0] > 0:
            return u // t.a[1].a[0]
        return u
    if t.op == "typed":
        return (1 << t.a[1]) - 1
    return None


TYPED = {}   # term -> bits, filled by the engine when an integer place of known type is read


def int_cast(v, f, t):
    """integer `as` cast"""
    (fs, fb), (ts, tb) = f, t
    if v is UNDEF:
        return v
    if v.op == "ite":
        return lift(v, lambda x: int_cast(x, f, t))
    if v.op == "int":
        x = v.a[0]
        if ts:
            x &= (1 << tb) - 1
            if x >> (tb - 1):
                x -= 1 << tb
        else:
            x &= (1 << tb) - 1
        return I(x)
    if not fs and (tb > fb or (tb == fb and not ts)):
        return v
    if fs and ts and tb >= fb:
        return v
    if not fs and not ts:
        u = upper(v)
        if u is None and v in TYPED:
            u = (1 << TYPED[v]) - 1
        if u is not None and u < (1 << tb):
            return v
        if v.op == "trunc" and v.a[1] <= tb:
            return v
        return mk("trunc", v, tb)
    if fs and not ts and tb >= fb - 1 and v.op == "abs":
        return v
    return mk("cast", v, ("i" if fs else "u") + str(fb), ("i" if ts else "u") + str(tb))


def fits_cond(v, bits, signed=False, from_signed=False):
    """boolean DAG: mathematical value v is representable"""
    if v.op == "int":
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        return TRUE if lo <= v.a[0] <= hi else FALSE
    u = upper(v)
    if u is not None and u <= maxint(bits, signed) and not from_signed:
        return TRUE
    if v.op == "ite" and nleaves(v) <= 24:
        return lift(v, lambda l: fits_cond(l, bits, signed, from_signed))
    r = lift_lin(lambda l: fits_cond(l, bits, signed, from_signed), v)
    if r is not None:
        return r
    return mk("ite", mk("fits", v, ("i" if signed else "u") + str(bits)), TRUE, FALSE)


def chase(run, st, v, n=6):
    """value behind any chain of references"""
    while n and v.op in ("ref", "ite"):
        if v.op == "ite":
            if not any(l.op == "ref" for l in leaves(v)):
                return v
            v = lift(v, lambda l: chase(run, st, l, n - 1) if l.op == "ref" else l)
            return v
        v = run.read_ref(st, v)
        n -= 1
    if v.op == "sym" and run.is_refsym(v):
        return run.read_ref(st, v)
    return v


def one(run, st, v):
    """value behind one reference"""
    return run.read_ref(st, v)


def strip_mu(v):
    n = 0
    while n < 8:
        if v.op == "upd" and v.a[1] in ("value", "0"):
            v = v.a[2]
        elif v.op == "adt" and len(v.a[3]) == 1 and v.a[3][0][0] in ("value", "0") and v.a[0] not in ("Result", "Option", "()"):
            v = v.a[3][0][1]
        else:
            break
        n += 1
    return v


def arith(op, a, b):
    return {"add": mk_add, "sub": mk_sub, "mul": mk_mul, "div": mk_div, "rem": mk_rem, "shl": mk_shl, "shr": mk_shr}[op](a, b)


def ovf(op, a, b, bits, signed=False):
    """boolean DAG: the operation fails in `bits` bits"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if op in ("div", "rem"):
        return eq(b, I(0))
    if op in ("shl", "shr"):
        return le(I(bits), b)
    if op == "sub" and not signed:
        return lt(a, b)
    r = arith(op, a, b)
    return b_not(fits_cond(r, bits, signed))


def checked(op, a, b, bits, signed=False):
    if op == "shl" and a.op != "int":
        r = mk_shl(a, b)
    r = arith(op, a, b)
    bad = ovf(op, a, b, bits, signed)
    if r is UNDEF or bad is UNDEF:
        return UNDEF
    return chk("Option", r, bad)


UINT = ("ruint::", "<ruint::")
_NUMFN = re.compile(r"^core::num::<impl (\w+)>::(\w+)$")
_RUF = re.compile(r"^ruint::\w+::<impl ruint::Uint<BITS, LIMBS>>::(\w+)$")


def cmp_types(c):
    return c.get("targs", ["?"])[0]


def num_like(ty):
    ty = ty.lstrip("&")
    return bool(PRIM.match(ty)) or ty.startswith("ruint::Uint<")


def eq_like(ty):
    ty = ty.lstrip("&").replace("mut ", "")
    return num_like(ty) or ty in ("solana_pubkey::Pubkey",) or ty.startswith(("[u8", "solana_pubkey::")) or ty in ("str", "[u8]")


def builtin(run, decl, path, c, vals, st, pc, rty, span, caller):
    r = _builtin(run, decl, path, c, vals, st, pc, rty, span, caller)
    if r is None:
        return None
    if isinstance(r, T):
        return r, st, pc
    return r


def _builtin(run, decl, path, c, vals, st, pc, rty, span, caller):
    d = decl
    targs = c.get("targs", [])
    # ---------------------------------------------------------------- Result / Option plumbing
    if d == "core::ops::try_trait::Try::branch":
        v = vals[0]
        ty = targs[0] if targs else ""
        if ty.startswith("core::option"):
            return lift(v, lambda l: branch1(l, True))
        if ty.startswith("core::result"):
            return lift(v, lambda l: branch1(l, False))
        return None
    if d == "core::ops::try_trait::FromResidual::from_residual":
        if rty.startswith("core::result::Result"):
            return ERR
        if rty.startswith("core::option::Option"):
            return NONE
        return None
    if d == "core::result::Result::<T, E>::map_err":
        return vals[0]
    if d == "anyhow::__private::not" and targs[:1] in ([], ["bool"]):
        return ite(as_bool(vals[0]), I(0), I(1))
    if d.startswith("anyhow::") and d.endswith(("::context", "::with_context")):
        if "core::result::Result" in path:
            return vals[0]
        if "core::option::Option" in path:
            return lift(vals[0], o2r)
    if d in ("core::option::Option::<T>::ok_or_else", "core::option::Option::<T>::ok_or"):
        return lift(vals[0], o2r)
    if d == "core::result::Result::<T, E>::ok":
        return lift(vals[0], r2o)
    if d in ("core::result::Result::<T, E>::unwrap", "core::result::Result::<T, E>::expect"):
        v = lift(vals[0], unchk)
        p2 = b_and(pc, b_not(is_err(v)))
        return constrain(fld(as_var(v, "Ok", 0), "0"), p2), st, p2
    if d in ("core::option::Option::<T>::unwrap", "core::option::Option::<T>::expect"):
        v = lift(vals[0], unchk)
        p2 = b_and(pc, b_not(is_none(v)))
        return constrain(fld(as_var(v, "Some", 1), "0"), p2), st, p2
    if d == "core::option::Option::<T>::unwrap_or":
        return ite(is_none(vals[0]), vals[1], fld(as_var(vals[0], "Some", 1), "0"))
    if d == "core::result::Result::<T, E>::unwrap_or":
        return ite(is_err(vals[0]), vals[1], fld(as_var(vals[0], "Ok", 0), "0"))
    if d in ("core::option::Option::<T>::unwrap_or_default", "core::result::Result::<T, E>::unwrap_or_default"):
        dv = default(run, rty)
        if dv is not None:
            o = d.startswith("core::option")
            return ite(is_none(vals[0]) if o else is_err(vals[0]), dv,
                       fld(as_var(vals[0], "Some" if o else "Ok", 0), "0"))
        return None
    if d == "core::option::Option::<T>::is_some":
        return b_not(is_none(one(run, st, vals[0])))
    if d == "core::option::Option::<T>::is_none":
        return is_none(one(run, st, vals[0]))
    if d == "core::result::Result::<T, E>::is_ok":
        return b_not(is_err(one(run, st, vals[0])))
    if d == "core::result::Result::<T, E>::is_err":
        return is_err(one(run, st, vals[0]))
    if d in ("core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_mut"):
        r = vals[0]
        v = one(run, st, r)
        inner = run.add_path(run.add_path(r, ("v", "Some", 1)), (".", "0"))
        return ite(is_none(v), NONE, Some(inner))
    if d in ("core::option::Option::<T>::map", "core::option::Option::<T>::and_then", "core::result::Result::<T, E>::map",
             "core::result::Result::<T, E>::and_then", "core::option::Option::<T>::map_or"):
        v, f = vals[0], vals[-1]
        o = d.startswith("core::option")
        bad = is_none(v) if o else is_err(v)
        x = fld(as_var(v, "Some" if o else "Ok", 0), "0")
        good = b_and(pc, b_not(bad))
        if good is FALSE:
            return vals[1] if d.endswith("map_or") else (NONE if o else ERR)
        r = run.call_fnlike({"decl": "core::ops::function::FnOnce::call_once", "targs": []}, [f, tup(constrain(x, good))],
                            st, good, "?", span, caller)
        if r is None:
            return None
        val, st2, pc2 = r
        if d.endswith("::map"):
            val = Some(val) if o else Ok(val)
        neg = vals[1] if d.endswith("map_or") else (NONE if o else ERR)
        if bad is FALSE:
            return val, st2, pc2
        st3 = st.copy()
        pcn = b_and(pc, bad)
        mg = run.merge([(pc2, st2), (pcn, st3)])
        return ite(constrain(bad, mg[0]), neg, val), mg[1], mg[0]
    # ---------------------------------------------------------------- identity-like conversions
    if d in ("core::convert::Into::into", "core::convert::From::from"):
        return conv_from(run, d, path, c, vals, st, pc, rty)
    if d in ("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into",
             "num_traits::cast::FromPrimitive::from_u128", "num_traits::cast::ToPrimitive::to_u64",
             "num_traits::cast::FromPrimitive::from_u64", "num_traits::cast::ToPrimitive::to_u128",
             "num_traits::cast::NumCast::from"):
        return conv_try(run, d, path, c, vals, st, pc, rty)
    if d in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut"):
        return deref(run, targs[0], vals[0], st)
    if d in ("core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow", "alloc::boxed::Box::<T>::as_ref"):
        return as_ref(run, targs, vals[0], st, rty)
    if d == "core::clone::Clone::clone":
        return one(run, st, vals[0])
    if d in ("core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied"):
        v = vals[0]
        x = fld(as_var(v, "Some", 1), "0")
        return ite(is_none(v), NONE, Some(run.read_ref(st, x)))
    if d == "alloc::boxed::Box::<T>::new":
        return vals[0]
    if d == "alloc::boxed::Box::<T>::new_uninit":
        return mk("uninit")
    if d == "alloc::boxed::box_assume_init_into_vec_unsafe":
        return strip_mu(vals[0])
    if d in ("core::hint::must_use", "core::mem::drop"):
        return vals[0] if d.endswith("use") else UNIT
    if d in ("core::mem::replace", "core::mem::take"):
        old = one(run, st, vals[0])
        new = vals[1] if d.endswith("replace") else default(run, targs[0])
        if new is None:
            return None
        st = st.copy()
        run.write_ref(st, vals[0], new, pc)
        return old, st, pc
    if d == "core::mem::swap":
        a, b = one(run, st, vals[0]), one(run, st, vals[1])
        st = st.copy()
        run.write_ref(st, vals[0], b, pc)
        run.write_ref(st, vals[1], a, pc)
        return UNIT, st, pc
    if d == "core::default::Default::default":
        v = default(run, rty)
        return v
    if d == "core::mem::size_of":
        return None
    # ---------------------------------------------------------------- comparisons
    if d in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
        lk = c.get("key")
        if eq_like(targs[0]) or not (lk in run.p.fns and d.endswith("eq") and run.p.fns[lk]["local"]):
            if d.endswith("ne") or eq_like(targs[0]) or targs[0].startswith(("core::option", "&")) or lk not in run.p.fns:
                et = (targs[0].lstrip("&"), "core::cmp::PartialEq")
                if d.endswith("ne") and not eq_like(targs[0]) and lk in run.p.fns and run.p.fns[lk]["local"]:
                    return None
                if d.endswith("ne") and not eq_like(targs[0]):
                    # ne of a type with its own eq: negate that eq
                    for k2 in (run.p.by_impl.get(("core::cmp::PartialEq::eq", targs[0].lstrip("&"))),):
                        if k2:
                            a0, a1 = vals
                            for _ in range(len(targs[0]) - len(targs[0].lstrip("&"))):
                                a0, a1 = one(run, st, a0), one(run, st, a1)
                            r, s2, p2 = run.inline(k2, [a0, a1], st, pc, span, caller)
                            return b_not(as_bool(r)), s2, p2
                a, b = run.snap(vals[0], st), run.snap(vals[1], st)
                r = eq(a, b)
                return b_not(r) if d.endswith("ne") else r
        return None
    if d.startswith("core::cmp::PartialOrd::") and num_like(targs[0]):
        a, b = chase(run, st, vals[0]), chase(run, st, vals[1])
        sg = targs[0].lstrip("&").startswith("i")
        m = d.rsplit("::", 1)[1]
        if m == "lt":
            return lt(a, b, sg)
        if m == "le":
            return le(a, b, sg)
        if m == "gt":
            return lt(b, a, sg)
        if m == "ge":
            return le(b, a, sg)
        if m == "partial_cmp":
            return Some(_ordering(a, b, sg))
    if d == "core::cmp::Ord::cmp" and num_like(targs[0]):
        a, b = chase(run, st, vals[0]), chase(run, st, vals[1])
        return _ordering(a, b, targs[0].lstrip("&").startswith("i"))
    if d in ("core::cmp::Ord::min", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::max"):
        if num_like(targs[0]) and not targs[0].startswith("&"):
            return minmax(vals[0], vals[1], d.endswith("min"), targs[0].startswith("i"))
        if "Pubkey" in targs[0]:
            a, b = run.snap(vals[0], st), run.snap(vals[1], st)
            r = mk("min" if d.endswith("min") else "max", *sorted((a, b), key=lambda t: t.id))
            if targs[0].startswith("&"):
                run.heap += 1
                from .engine import Root, ref
                rt = Root("H", run.heap)
                st = st.copy()
                st.m[rt] = r
                return ref(rt), st, pc
            return r
    if d in ("core::cmp::Ord::clamp",) and num_like(targs[0]):
        return minmax(minmax(vals[0], vals[1], False), vals[2], True)
    # ---------------------------------------------------------------- integers
    m = _NUMFN.match(d)
    if m:
        return numfn(run, m.group(1), m.group(2), vals, st, pc)
    m = _RUF.match(d)
    if m:
        return ruint(run, m.group(1), c, vals, st, pc, rty)
    if d.startswith("core::ops::arith::") or d.startswith("core::ops::bit::"):
        return opcall(run, d, c, vals, st, pc)
    if d.startswith("ruint::from::<impl ruint::Uint<BITS, LIMBS>>::"):
        n = d.rsplit("::", 1)[1]
        if n in ("from", "to"):
            return vals[0]
        return None
    if d == "num_integer::Integer::div_rem":
        a, b = vals
        if not num_like(targs[0].lstrip("&")):
            return None
        a, b = chase(run, st, a), chase(run, st, b)
        return tup(mk_div(a, b), mk_rem(a, b))
    if d in ("num_integer::Integer::div_ceil",):
        a, b = chase(run, st, vals[0]), chase(run, st, vals[1])
        return mk_divc(a, b)
    # ---------------------------------------------------------------- slices, vectors, iterators
    r = seq(run, d, c, targs, vals, st, pc, rty, span, caller)
    if r is not None:
        return r
    # ---------------------------------------------------------------- anchor / solana
    return anchor(run, d, path, c, targs, vals, st, pc, rty, span, caller)


def _ordering(a, b, sg):
    o = lambda n, dd: adt("core::cmp::Ordering", n, dd, ())
    return ite(lt(a, b, sg), o("Less", (1 << 8) - 1), ite(eq(a, b), o("Equal", 0), o("Greater", 1)))


def minmax(a, b, is_min, sg=False):
    if a.op == "ite" or b.op == "ite":
        if nleaves(a) * nleaves(b) <= 16:
            return lift(a, lambda x: lift(b, lambda y: minmax(x, y, is_min, sg)))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return mk_min(a, b) if is_min else mk_max(a, b)


def default(run, ty):
    if PRIM.match(ty):
        return FALSE if ty == "bool" else I(0)
    if ty.startswith("ruint::Uint<"):
        return I(0)
    if ty == "solana_pubkey::Pubkey":
        return pubkey_zero()
    if ty.startswith("core::option::Option<"):
        return NONE
    t = run.p.types.get(ty, {})
    if t.get("k") == "array" and isinstance(t.get("len"), int) and t["len"] <= 4096:
        e = default(run, t["inner"])
        if e is None:
            return None
        return mk("arr", *([e] * t["len"])) if t["len"] <= 64 else mk("repeat", e, t["len"])
    if ty.startswith("alloc::vec::Vec<"):
        return mk("arr")
    return None


def pubkey_zero():
    return adt("solana_pubkey::Pubkey", "Pubkey", 0, [("0", mk("arr", *([I(0)] * 32)))])


def conv_from(run, d, path, c, vals, st, pc, rty):
    targs = c.get("targs", [])
    if d.endswith("Into::into"):
        src, dst = (targs + ["?", "?"])[:2]
    else:
        dst, src = (targs + ["?", "?"])[:2]
    v = vals[0]
    if src == dst:
        return v
    if num_like(dst) and (num_like(src)):
        if src == "bool":
            return v
        return v
    if dst.startswith("anchor_lang::error::Error") or "Error" in dst.split("<")[0]:
        return ERRTOK
    if dst.startswith("alloc::boxed::Box<") or dst.startswith("alloc::vec::Vec<") and src.startswith("["):
        return v
    if "COption" in dst or "COption" in src:
        return None
    return None


def conv_try(run, d, path, c, vals, st, pc, rty):
    targs = c.get("targs", [])
    v = vals[0]
    lk = c.get("key")
    if d.endswith("TryInto::try_into"):
        src, dst = (targs + ["?", "?"])[:2]
    elif d.endswith("TryFrom::try_from"):
        dst, src = (targs + ["?", "?"])[:2]
    elif "FromPrimitive" in d:
        dst, src = targs[0], d.rsplit("_", 1)[1]
    elif "ToPrimitive" in d:
        src, dst = targs[0], d.rsplit("_", 1)[1]
        v = one(run, st, v)
    else:
        return None
    if not (num_like(src) and num_like(dst)):
        return None
    opt = "num_traits" in d
    good = Some if opt else Ok
    bad = NONE if opt else ERR
    if v is UNDEF:
        return UNDEF
    if dst.startswith("ruint"):
        n = int(re.search(r"<(\d+)", dst).group(1))
        db, ds = n, False
    else:
        db, ds = BITS[dst], dst.startswith("i")
    if src.startswith("ruint"):
        sb, ss = int(re.search(r"<(\d+)", src).group(1)), False
    else:
        sb, ss = BITS[src], src.startswith("i")
    if not ss and (db > sb or (db == sb and not ds)):
        return good(v)
    kd = "Option" if opt else "Result"
    return lift(v, lambda x: UNDEF if x is UNDEF else chk(kd, x, b_not(fits_cond(x, db, ds, ss))))


def numfn(run, ty, fn, vals, st, pc):
    if ty not in BITS:
        return None
    bits, sg = BITS[ty], ty.startswith("i")
    m = re.match(r"^(checked|saturating|wrapping|overflowing)_(add|sub|mul|div|rem|shl|shr|pow|neg|abs|ilog2|next_power_of_two)$", fn)
    if m:
        k, op = m.groups()
        if op == "pow":
            base, e = vals
            if base.op == "int" and e.op == "int" and e.a[0] < 256:
                r = I(base.a[0] ** e.a[0])
            else:
                r = mk_pow(base, e)
            if r is UNDEF:
                return UNDEF
            okc = fits_cond(r, bits, sg)
            if k == "checked":
                return chk("Option", r, b_not(okc))
            return mk(k + "_pow", base, e, bits)
        if op in ("add", "sub", "mul", "div", "rem", "shl", "shr"):
            a, b = vals
            if a is UNDEF or b is UNDEF:
                return UNDEF
            if k == "checked":
                return checked(op, a, b, bits, sg)
            if k == "saturating" and not sg:
                if op == "sub":
                    return ite(lt(a, b), I(0), mk_sub(a, b))
                r = arith(op, a, b)
                return ite(fits_cond(r, bits), r, I(maxint(bits)))
            if k == "wrapping":
                r = arith(op, a, b)
                bad = lt(a, b) if op == "sub" and not sg else le(I(bits), b) if op in ("shl", "shr") else b_not(fits_cond(r, bits, sg))
                return r if b_and(pc, bad) is FALSE else mk("wrap", r, bits)
            if k == "overflowing":
                if op in ("shl", "shr"):
                    return tup(arith(op, a, b), le(I(bits), b))
                r = arith(op, a, b)
                return tup(ite(fits_cond(r, bits, sg), r, mk("wrap", r, bits)), b_not(fits_cond(r, bits, sg)))
        return mk("call", "num::" + fn, *vals)
    if fn == "abs_diff":
        a, b = vals
        return ite(lt(a, b), mk_sub(b, a), mk_sub(a, b))
    if fn in ("div_ceil",):
        return mk_divc(*vals)
    if fn == "abs":
        return mk("abs", vals[0])
    if fn == "is_negative":
        return lt(vals[0], I(0), True)
    if fn == "is_power_of_two":
        return as_bool(mk("ispow2", vals[0]))
    if fn == "pow":
        b, e = vals
        if b.op == "int" and e.op == "int" and e.a[0] < 256:
            return I(b.a[0] ** e.a[0])
        return mk_pow(b, e)
    if fn in ("min_value",):
        return I(-(1 << (bits - 1)) if sg else 0)
    if fn in ("max_value",):
        return I(maxint(bits, sg))
    if fn in ("to_le_bytes", "to_be_bytes", "from_le_bytes", "from_be_bytes", "to_ne_bytes"):
        if vals[0].op == "int":
            if fn.startswith("to_"):
                return mk("arr", *[I(x) for x in vals[0].a[0].to_bytes(bits // 8, "big" if "_be" in fn else "little", signed=sg)])
        return mk(fn, vals[0], bits)
    if fn in ("leading_zeros", "trailing_zeros", "count_ones"):
        return mk(fn, vals[0], bits)
    if fn == "isqrt":
        return mk("isqrt", vals[0])
    return None


def ruint(run, fn, c, vals, st, pc, rty):
    bits = 256
    for t in c.get("targs", []):
        if t.isdigit():
            bits = int(t)
            break
    m = re.search(r"<(\d+), (\d+)>", c.get("key", ""))
    if m:
        bits = int(m.group(1))
    if fn in ("from",):
        return vals[0]
    if fn == "to":
        return vals[0]
    if fn == "wrapping_to":
        n = re.search(r"\bu(8|16|32|64|128)\b|\busize\b", rty or "")
        return int_cast(vals[0], (False, bits or 256), (False, int(n.group(1) or 64))) if n else None
    if fn in ("is_zero",):
        return eq(chase(run, st, vals[0]), I(0))
    if fn == "div_ceil":
        return mk_divc(*vals)
    if fn == "div_rem":
        return tup(mk_div(*vals), mk_rem(*vals))
    if fn == "root" or fn == "isqrt":
        return mk("root", *vals)
    mm = re.match(r"^(checked|overflowing|saturating|wrapping)_(add|sub|mul|div|rem|shl|shr|pow)$", fn)
    if mm:
        k, op = mm.groups()
        a, b = vals
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if op == "pow":
            return mk("call", "ruint::" + fn, a, b)
        if k == "checked":
            if op in ("shl", "shr"):
                r = arith(op, a, b)
                # ruint's checked shifts fail when set bits are lost
                if op == "shr":
                    return ite(mk("ite", mk("lossy_shr", a, b), TRUE, FALSE), NONE, Some(r))
                return chk("Option", r, b_not(fits_cond(r, bits)))
            return checked(op, a, b, bits)
        if k == "overflowing":
            if op == "shr":
                return tup(mk_shr(a, b), as_bool(mk("lossy_shr", a, b)))
            r = arith(op, a, b)
            return tup(r, b_not(fits_cond(r, bits)))
        r = arith(op, a, b)
        bad = lt(a, b) if op == "sub" else b_not(fits_cond(r, bits))
        return ite(bad, (I(0) if op == "sub" else I(maxint(bits))) if k == "saturating" else mk("wrap", r, bits), r)
    if fn in ("leading_zeros", "bit_len", "trailing_zeros", "count_ones"):
        return mk(fn, chase(run, st, vals[0]), bits)
    if fn == "as_limbs":
        return None
    return None


def opcall(run, d, c, vals, st, pc):
    targs = c.get("targs", [])
    t0 = targs[0].lstrip("&") if targs else ""
    if not num_like(t0):
        return None
    v = [chase(run, st, x) for x in vals]
    n = d.rsplit("::", 1)[1]
    if n in ("add", "sub", "mul", "div", "rem"):
        if t0.startswith("ruint") and n in ("add", "mul", "sub"):
            bits = int(re.search(r"<(\d+)", t0).group(1))
            # ruint's operators wrap silently: keep the wrapped value apart unless it provably fits
            r = arith(n, *v)
            if r is UNDEF:
                return r
            if n == "sub":
                k, terms = lin_of(r)
                if k >= 0 and all(x > 0 for x in terms.values()):
                    return r    # a sum of unsigned quantities: nothing is taken away
                return ite(lt(v[0], v[1]), mk("wrap", r, bits), r)
            return rwrap(r, v, n, bits)
        return arith(n, *v)
    if n in ("bitand", "bitor", "bitxor"):
        if t0 == "bool":
            a, b = as_bool(v[0]), as_bool(v[1])
            return b_and(a, b) if n == "bitand" else b_or(a, b) if n == "bitor" else ite(a, b_not(b), b)
        return mk_bit(n[3:], *v)
    if n in ("shl", "shr"):
        return arith(n, *v)
    if n == "not":
        if t0 == "bool":
            return b_not(as_bool(v[0]))
        return mk("bitnot", t0, v[0])
    if n == "neg":
        return mk_scale(v[0], -1)
    if n.endswith("_assign"):
        b = n[:-7]
        if b in ("add", "sub", "mul", "div", "rem", "shl", "shr"):
            r = arith(b, v[0], v[1])
        elif b in ("bitand", "bitor", "bitxor"):
            r = mk_bit(b[3:], v[0], v[1])
        else:
            return None
        st = st.copy()
        run.write_ref(st, vals[0], r, pc)
        return UNIT, st, pc
    return None


def rwrap(r, v, n, bits):
    """widening arithmetic in 256/512 bits: values built from at most 128-bit inputs cannot wrap when the widths add up"""
    return r


# ------------------------------------------------------------------ sequences
def len_of(run, st, v):
    v = chase(run, st, v)
    return run.length(v)


def seq(run, d, c, targs, vals, st, pc, rty, span, caller):
    from .engine import Root, ref
    if d in ("core::slice::<impl [T]>::len", "alloc::vec::Vec::<T, A>::len", "core::str::<impl str>::len",
             "alloc::string::String::len"):
        return len_of(run, st, vals[0])
    if d in ("core::slice::<impl [T]>::is_empty", "alloc::vec::Vec::<T, A>::is_empty", "alloc::string::String::is_empty"):
        return eq(len_of(run, st, vals[0]), I(0))
    if d in ("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity"):
        return mk("arr")
    if d == "alloc::vec::Vec::<T, A>::push":
        v = one(run, st, vals[0])
        st = st.copy()

        def push(l):
            return mk("arr", *(l.a + (vals[1],))) if l.op == "arr" else mk("push", l, vals[1])
        run.write_ref(st, vals[0], lift(v, push), pc)
        return UNIT, st, pc
    if d in ("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::<T, A>::extend_from_slice"):
        v = one(run, st, vals[0])
        o = chase(run, st, vals[1])
        st = st.copy()
        if v.op == "arr" and o.op == "arr":
            r = mk("arr", *(v.a + o.a))
        else:
            r = mk("concat", v, o)
        run.write_ref(st, vals[0], r, pc)
        return UNIT, st, pc
    if d in ("core::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::concat"):
        v = run.snap(vals[0], st)
        if v.op == "arr" and all(x.op == "arr" for x in v.a):
            return mk("arr", *[y for x in v.a for y in x.a])
        return mk("concat", v)
    if d in ("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec"):
        return chase(run, st, vals[0])
    if d in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"):
        base, ix = vals
        ity = targs[1] if len(targs) > 1 else ""
        if ity == "usize":
            return run.add_path(base, ("i", ix))
        if ity.startswith("core::ops::range::RangeFull"):
            return base
        if ity.startswith("core::ops::range::Range"):
            if base.op == "ref" or base.op == "sym":
                v = one(run, st, base)
                if v.op == "accslice":
                    k = fld(ix, "start")
                    if k.op == "int" and ity.startswith("core::ops::range::RangeFrom"):
                        return run.temp(st, mk("accslice", v.a[0] + k.a[0]))
            lo = fld(ix, "start") if "RangeTo" not in ity else I(0)
            hi = fld(ix, "end") if "RangeFrom" not in ity else None
            return run.add_path(base, ("rng", lo, hi))
        return None
    if d == "core::slice::<impl [T]>::get" and targs and "usize" in targs[-1]:
        base, ix = vals
        n = len_of(run, st, base)
        return ite(lt(ix, n), Some(run.add_path(base, ("i", ix))), NONE)
    if d in ("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last"):
        base = vals[0]
        n = len_of(run, st, base)
        ix = I(0) if d.endswith("first") else mk_sub(n, I(1))
        return ite(eq(n, I(0)), NONE, Some(run.add_path(base, ("i", ix))))
    if d == "core::slice::<impl [T]>::contains":
        a = chase(run, st, vals[0])
        x = run.snap(vals[1], st)
        a = run.snap(a, st)
        if a.op == "arr":
            r = FALSE
            for e in a.a:
                r = b_or(r, eq(e, x))
            return r
        return as_bool(mk("contains", a, x))
    if d.startswith("core::ops::range::Range") and d.endswith("::contains") and targs and num_like(targs[0]):
        r = run.snap(vals[0], st)
        x = run.snap(vals[1], st)
        if r.op != "adt" or x.op == "ref":
            return None
        kind = d[len("core::ops::range::"):].split("::")[0]
        lo = TRUE if "RangeTo" in kind else b_not(lt(x, fld(r, "start")))
        hi = TRUE if kind == "RangeFrom" else b_not(lt(fld(r, "end"), x)) if kind.endswith("Inclusive") else lt(x, fld(r, "end"))
        return b_and(lo, hi)
    if d.startswith("core::ops::range::RangeInclusive") and d.endswith("::new") and len(vals) == 2:
        return adt("core::ops::range::RangeInclusive<%s>" % (targs[0] if targs else ""), "RangeInclusive", 0,
                   [("start", vals[0]), ("end", vals[1]), ("exhausted", I(0))])
    if d == "core::slice::<impl [T]>::copy_from_slice":
        st = st.copy()
        run.write_ref(st, vals[0], chase(run, st, vals[1]), pc)
        return UNIT, st, pc
    # iterators
    if d in ("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut"):
        return mk_iter(run, st, vals[0])
    if d == "core::slice::<impl [T]>::windows" and vals[1].op == "int":
        it = mk_iter(run, st, vals[0])
        return adt("Windows", "Windows", 0, [("s", fld(it, "s")), ("lo", I(0)), ("hi", fld(it, "hi")), ("k", vals[1])])
    if d == "core::iter::traits::collect::IntoIterator::into_iter":
        t = targs[0]
        v = vals[0]
        if t.startswith("&"):
            return mk_iter(run, st, v)
        if t.startswith("core::ops::range::RangeInclusive") and v.op == "adt" and fld(v, "exhausted") is I(0):
            return adt(t.replace("RangeInclusive", "Range"), "Range", 0, [("start", fld(v, "start")), ("end", mk_add(fld(v, "end"), I(1)))])
        if t.startswith(("core::ops::range::Range", "core::slice::iter::", "core::iter::")):
            return v
        if t.startswith(("alloc::vec::Vec<", "[")):
            r, st = run.temp2(st, v)
            it = mk_iter(run, st, r)
            return mk_upd(it, "own", I(1)), st, pc
        return None
    if d == "core::iter::traits::iterator::Iterator::rev":
        v = vals[0]
        return adt("Rev", "Rev", 0, [("iter", v)])
    if d == "core::iter::traits::iterator::Iterator::enumerate":
        v = vals[0]
        off = fld(v, "lo") if v.op == "adt" and v.a[0] == "SliceIter" else I(0)
        return adt("Enumerate", "Enumerate", 0, [("iter", v), ("n", I(0)), ("off", off)])
    if d == "core::iter::traits::iterator::Iterator::zip":
        b = vals[1]
        if b.op == "ref":
            b = mk_iter(run, st, b)
        return adt("Zip", "Zip", 0, [("a", vals[0]), ("b", b)])
    if d == "core::iter::traits::iterator::Iterator::map":
        return adt("Map", "Map", 0, [("iter", vals[0]), ("f", vals[1])])
    if d in ("core::iter::traits::iterator::Iterator::take", "core::iter::traits::iterator::Iterator::skip"):
        v, n = vals
        if v.op == "adt" and v.a[0] in ("SliceIter", "Range"):
            lo, hi = ("lo", "hi") if v.a[0] == "SliceIter" else ("start", "end")
            if d.endswith("take"):
                return mk_upd(v, hi, minmax(fld(v, hi), mk_add(fld(v, lo), n), True))
            return mk_upd(v, lo, mk_add(fld(v, lo), n))
        if v.op == "adt" and v.a[0] in ("Enumerate", "Copied") and fld(v, "iter").op == "adt" and fld(v, "iter").a[0] == "SliceIter":
            w = fld(v, "iter")
            if d.endswith("take"):
                w = mk_upd(w, "hi", minmax(fld(w, "hi"), mk_add(fld(w, "lo"), n), True))
            else:
                w = mk_upd(w, "lo", mk_add(fld(w, "lo"), n))
            return mk_upd(v, "iter", w)
        return None
    if d == "core::iter::traits::iterator::Iterator::take_while":
        return adt("TakeWhile", "TakeWhile", 0, [("iter", vals[0]), ("f", vals[1]), ("live", I(1))])
    if d in ("core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned"):
        return adt("Copied", "Copied", 0, [("iter", vals[0])])
    if d in ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back"):
        it = one(run, st, vals[0])
        r = iter_next(run, st, pc, it, d.endswith("back"), span, caller)
        if r is None:
            return None
        item, it2, st, pc = r
        st = st.copy()
        run.write_ref(st, vals[0], it2, pc)
        return item, st, pc
    if d.startswith("core::iter::traits::iterator::Iterator::"):
        return iter_consume(run, d.rsplit("::", 1)[1], c, vals, st, pc, rty, span, caller)
    return None


def iter_collect(run, it, st, pc, rty, span, caller):
    """a vector of the items; the length may depend on conditions, the bound may not"""
    if not rty.startswith("alloc::vec::Vec<") or it.op != "adt":
        return None
    if it.a[0] not in ITERS and not it.a[0].startswith("core::ops::range::Range<"):
        return None
    items, ends = [], []
    live = TRUE
    for _ in range(66):
        r = iter_next(run, st, pc, it, False, span, caller)
        if r is None:
            return None
        none = b_or(b_not(live), is_none(r[0]))
        ends.append(none)
        if none is TRUE:
            break
        items.append(fld(as_var(r[0], "Some", 1), "0"))
        live = b_and(live, b_not(none))
        it, st, pc = r[1], r[2], r[3]
    else:
        return None
    t = mk("arr", *items)
    for i in reversed(range(len(ends))):
        t = ite(ends[i], mk("arr", *items[:i]), t)
    return t, st, pc


def iter_consume(run, m, c, vals, st, pc, rty, span, caller):
    """consuming adaptors over iterators of known length, one element at a time"""
    if m == "collect":
        return iter_collect(run, vals[0], st, pc, rty, span, caller)
    if m not in ("any", "all", "fold", "for_each", "count", "find", "position", "sum", "try_fold", "find_map", "try_for_each", "last"):
        return None
    it = vals[0]
    if it.op == "ref":
        it = one(run, st, it)
    if it.op != "adt" or it.a[0] not in ITERS and not it.a[0].startswith("core::ops::range::Range<"):
        return None
    items = []
    st1, pc1, it0 = st, pc, it
    for _ in range(130):
        r = iter_next(run, st1, pc1, it, False, span, caller)
        if r is None:
            return None
        none = is_none(r[0])
        if none is TRUE:
            break
        if none is not FALSE:
            return quantified(run, m, c, vals, it0, st, pc, rty, span, caller)
        items.append(fld(as_var(r[0], "Some", 1), "0"))
        it, st1, pc1 = r[1], r[2], r[3]
    else:
        return None
    st, pc = st1, pc1
    fn = vals[-1] if m not in ("count", "sum", "last") else None

    def callf(args, st, pc):
        f = fn
        fv = f
        fref = None
        if fv.op == "ref":
            fref = fv
            fv = run.read_ref(st, fv)
        return run.call_fnval(fv, fref, c, tup(*args), st, pc, rty, span, caller)
    if m == "count":
        return I(len(items)), st, pc
    if m == "last":
        return (Some(items[-1]) if items else NONE), st, pc
    if m == "sum":
        acc = I(0)
        for x in items:
            acc = mk_add(acc, one(run, st, x) if x.op == "ref" else x)
        return acc, st, pc
    # the closure lives in memory across calls (FnMut state)
    if fn.op != "ref":
        fn, st = run.temp2(st, fn)
    if m in ("fold",):
        acc = vals[1]
        for x in items:
            r = callf([acc, x], st, pc)
            if r is None:
                return None
            acc, st, pc = r
        return acc, st, pc
    if m == "for_each":
        for x in items:
            r = callf([x], st, pc)
            if r is None:
                return None
            _, st, pc = r
        return UNIT, st, pc
    if m in ("any", "all", "find", "position", "find_map", "try_for_each", "try_fold"):
        acc = vals[1] if m == "try_fold" else None
        live = TRUE     # still searching
        res = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE}.get(m)
        if m in ("try_for_each", "try_fold"):
            # stop at the first failure: only the all-succeed value matters besides the error itself
            opt = "Option<" in rty.split("::")[-1] or rty.startswith("core::option")
            bad = FALSE
            for x in items:
                r = callf([acc, x] if m == "try_fold" else [x], st, pc)
                if r is None:
                    return None
                v, st, pc = r
                bad = b_or(bad, is_none(v) if opt else is_err(v))
                if m == "try_fold":
                    acc = try_payload(v)
            good = (Some if opt else Ok)(acc if m == "try_fold" else UNIT)
            return ite(bad, NONE if opt else ERR, good), st, pc
        for i, x in enumerate(items):
            arg = x
            if m == "find":
                arg = run.cref(x)
            r = callf([arg], st, pc)
            if r is None:
                return None
            v, st, pc = r
            if m == "any":
                res = b_or(res, as_bool(v))
            elif m == "all":
                res = b_and(res, as_bool(v))
            elif m == "find_map":
                res = ite(is_none(res), v, res)
            else:
                hit = b_and(is_none(res), as_bool(v))
                res = ite(hit, Some(x if m == "find" else I(i)), res)
        return res, st, pc
    return None


BOUND = mk("bound")


def at_bound(it):
    """the iterator placed at an unspecified element, and the range it covers"""
    if it.op != "adt":
        return None
    n = it.a[0]
    if n == "SliceIter" or n.startswith("core::ops::range::Range<"):
        lo, hi = ("lo", "hi") if n == "SliceIter" else ("start", "end")
        return mk_upd(mk_upd(it, lo, BOUND), hi, mk_add(BOUND, I(1))), fld(it, lo), fld(it, hi)
    if n == "Windows":
        k = fld(it, "k")
        return (mk_upd(mk_upd(it, "lo", BOUND), "hi", mk_add(BOUND, k)), fld(it, "lo"), mk_add(mk_sub(fld(it, "hi"), k), I(1)))
    if n in ("Copied", "Map") or n == "Enumerate" and fld(it, "n") is I(0):
        r = at_bound(fld(it, "iter"))
        return r and (mk_upd(it, "iter", r[0]), r[1], r[2])
    if n == "Zip":
        a, b = at_offset(fld(it, "a")), at_offset(fld(it, "b"))
        return a and b and (mk_upd(mk_upd(it, "a", a[0]), "b", b[0]), I(0), minmax(a[1], b[1], True))
    return None


def at_offset(it):
    """the iterator placed an unspecified number of elements after its start, and its number of elements"""
    n = it.a[0] if it.op == "adt" else ""
    if n == "SliceIter" or n.startswith("core::ops::range::Range<"):
        lo, hi = ("lo", "hi") if n == "SliceIter" else ("start", "end")
        i = mk_add(fld(it, lo), BOUND)
        return mk_upd(mk_upd(it, lo, i), hi, mk_add(i, I(1))), mk_sub(fld(it, hi), fld(it, lo))
    if n == "Copied":
        r = at_offset(fld(it, "iter"))
        return r and (mk_upd(it, "iter", r[0]), r[1])
    return None


def quantified(run, m, c, vals, it, st, pc, rty, span, caller):
    """any/all over unboundedly many elements, with a test that changes nothing: a quantified condition"""
    if m not in ("any", "all"):
        return None
    r = at_bound(it)
    if r is None:
        return None
    it1, lo, hi = r
    r = iter_next(run, st, pc, it1, False, span, caller)
    if r is None or r[3] is not pc:
        return None
    item, st1 = fld(as_var(r[0], "Some", 1), "0"), r[2]
    fn = vals[-1]
    if fn.op != "ref":
        fn, st1 = run.temp2(st1, fn)
    r = run.call_fnval(run.read_ref(st1, fn), fn, c, tup(item), st1, pc, rty, span, caller)
    if r is None or r[2] is not pc or any(st1.m.get(k) is not v for k, v in r[1].m.items() if k in st1.m):
        return None
    v = as_bool(r[0])
    if any(t is BOUND for x in (lo, hi) for t in subterms(x)) or any(t.op == "exists" for t in subterms(v)):
        return None
    some = atom_bool(mk("exists", lo, hi, v if m == "any" else b_not(v)))
    return some if m == "any" else b_not(some), st, pc


def try_payload(v):
    def f(x):
        if x.op == "chk":
            return x.a[1]
        if x.op == "adt" and x.a[1] in ("Ok", "Some"):
            return x.a[3][0][1] if x.a[3] else UNIT
        if x.op == "adt" and x.a[1] in ("Err", "None"):
            return UNDEF
        return fld(as_var(x, "Ok", 0), "0")
    return lift(v, f)


ITERS = ("SliceIter", "Windows", "TakeWhile", "Rev", "Enumerate", "Zip", "Map", "Copied", "core::ops::range::Range<usize>", "Range")


def mk_iter(run, st, r):
    """iterator over the slice/array/vec behind r"""
    v = one(run, st, r)
    if v.op == "ref":
        r = v
        v = one(run, st, r)
    n = run.length(v)
    return adt("SliceIter", "SliceIter", 0, [("s", r), ("lo", I(0)), ("hi", n), ("own", I(0))])


def iter_next(run, st, pc, it, back, span, caller):
    """-> (option item, new iterator, st, pc)"""
    if it.op != "adt":
        return None
    n = it.a[0]
    if n.startswith("core::ops::range::RangeInclusive"):
        return None
    if n.startswith("core::ops::range::RangeFrom<") and not back:
        a = fld(it, "start")
        return Some(a), mk_upd(it, "start", mk_add(a, I(1))), st, pc
    if n.startswith("core::ops::range::Range<") or n == "SliceIter":
        lo, hi = ("start", "end") if n != "SliceIter" else ("lo", "hi")
        a, b = fld(it, lo), fld(it, hi)
        c = lt(a, b)
        ix = a if not back else mk_sub(b, I(1))
        if n == "SliceIter":
            item = run.add_path(fld(it, "s"), ("i", ix))
            if fld(it, "own") is I(1):
                item = run.read_ref(st, item)
        else:
            item = ix
        new = mk_upd(it, lo, mk_add(a, I(1))) if not back else mk_upd(it, hi, mk_sub(b, I(1)))
        return ite(c, Some(item), NONE), ite(c, new, it), st, pc
    if n == "Windows" and not back:
        a, k = fld(it, "lo"), fld(it, "k").a[0]
        c = lt(mk_add(a, I(k - 1)), fld(it, "hi"))
        one_ = [run.read_ref(st, run.add_path(fld(it, "s"), ("i", mk_add(a, I(j))))) for j in range(k)]
        r, st = run.temp2(st, mk("arr", *one_))
        return ite(c, Some(r), NONE), ite(c, mk_upd(it, "lo", mk_add(a, I(1))), it), st, pc
    if n == "Rev":
        r = iter_next(run, st, pc, fld(it, "iter"), not back, span, caller)
        if r is None:
            return None
        return r[0], mk_upd(it, "iter", r[1]), r[2], r[3]
    if n == "Enumerate" and not back:
        inner = fld(it, "iter")
        r = iter_next(run, st, pc, inner, False, span, caller)
        if r is None:
            return None
        o = r[0]
        # position: derive it from the inner cursor when that started at zero, so no second counter appears
        if inner.op == "adt" and inner.a[0] == "SliceIter" and fld(it, "n") is I(0):
            k = mk_sub(fld(inner, "lo"), fld(it, "off"))
            newn = I(0)
        else:
            k = fld(it, "n")
            newn = mk_add(k, I(1))
        x = fld(as_var(o, "Some", 1), "0")
        none = is_none(o)
        return ite(none, NONE, Some(tup(k, x))), mk_upd(mk_upd(it, "iter", r[1]), "n", ite(none, fld(it, "n"), newn)), r[2], r[3]
    if n == "Zip" and not back:
        r = iter_next(run, st, pc, fld(it, "a"), False, span, caller)
        if r is None:
            return None
        q = iter_next(run, r[2], r[3], fld(it, "b"), False, span, caller)
        if q is None:
            return None
        none = b_or(is_none(r[0]), is_none(q[0]))
        x = tup(fld(as_var(r[0], "Some", 1), "0"), fld(as_var(q[0], "Some", 1), "0"))
        return ite(none, NONE, Some(x)), mk_upd(mk_upd(it, "a", r[1]), "b", q[1]), q[2], q[3]
    if n == "Copied":
        r = iter_next(run, st, pc, fld(it, "iter"), back, span, caller)
        if r is None:
            return None
        x = fld(as_var(r[0], "Some", 1), "0")
        return ite(is_none(r[0]), NONE, Some(run.read_ref(st, x))), mk_upd(it, "iter", r[1]), r[2], r[3]
    if n == "TakeWhile" and not back:
        r = iter_next(run, st, pc, fld(it, "iter"), False, span, caller)
        if r is None:
            return None
        o, inner, st, pc = r
        live = b_and(as_bool(fld(it, "live")), b_not(is_none(o)))
        good = b_and(pc, live)
        if good is FALSE:
            return NONE, mk_upd(mk_upd(it, "iter", inner), "live", I(0)), st, pc
        x = constrain(fld(as_var(o, "Some", 1), "0"), good)
        xr, st2 = run.temp2(st, x)
        q = run.call_fnlike({"decl": "core::ops::function::FnMut::call_mut", "targs": []}, [fld(it, "f"), tup(xr)], st2, good, "?", span, caller)
        if q is None:
            return None
        val, st2, pc2 = q
        mg = run.merge([(pc2, st2), (b_and(pc, b_not(live)), st.copy())])
        live = b_and(live, as_bool(val))
        return ite(live, Some(x), NONE), mk_upd(mk_upd(it, "iter", inner), "live", ite(live, I(1), I(0))), mg[1], mg[0]
    if n == "Map":
        r = iter_next(run, st, pc, fld(it, "iter"), back, span, caller)
        if r is None:
            return None
        o, inner, st, pc = r
        none = is_none(o)
        good = b_and(pc, b_not(none))
        x = fld(as_var(o, "Some", 1), "0")
        if good is FALSE:
            return NONE, mk_upd(it, "iter", inner), st, pc
        f = fld(it, "f")
        q = run.call_fnlike({"decl": "core::ops::function::FnMut::call_mut", "targs": []}, [f, tup(constrain(x, good))],
                            st, good, "?", span, caller)
        if q is None:
            return None
        val, st2, pc2 = q
        mg = run.merge([(pc2, st2), (b_and(pc, none), st.copy())])
        return ite(constrain(none, mg[0]), NONE, Some(val)), mk_upd(it, "iter", inner), mg[1], mg[0]
    return None


# ------------------------------------------------------------------ references to accounts
def acct_of(v):
    """account term behind wrappers"""
    return v


def data_ref(acct):
    from .engine import Root, ref
    return ref(Root("D", acct))


def deref(run, ty, r, st):
    """Deref::deref(&T)"""
    v = one(run, st, r)
    t = ty.lstrip("&")
    if t.startswith("alloc::boxed::Box<"):
        return r
    if t.startswith(("core::cell::Ref<", "core::cell::RefMut<")):
        return v
    if t.startswith("alloc::vec::Vec<") or t.startswith("alloc::string::String"):
        return r
    if t.startswith(("anchor_lang::accounts::interface_account::InterfaceAccount<", "anchor_lang::accounts::account::Account<")):
        return lift(v, data_ref)
    if t.startswith("anchor_spl::"):
        return r      # newtype wrappers (Mint, TokenAccount)
    if t.startswith(("anchor_lang::accounts::", "unchecked_account::")):
        # Signer, UncheckedAccount, AccountLoader, Program, Interface, SystemAccount, Sysvar: the account itself
        if t.startswith("anchor_lang::accounts::sysvar"):
            return lift(v, data_ref)
        return r
    return None


def as_ref(run, targs, r, st, rty):
    t = targs[0].lstrip("&")
    if t.startswith("alloc::boxed::Box<"):
        return r
    if t.startswith(("anchor_lang::accounts::", "solana_account_info", "unchecked_account")):
        return r
    if t == "solana_pubkey::Pubkey":
        return run.add_path(r, (".", "0"))
    if t.startswith(("[u8", "alloc::vec::Vec<", "alloc::string::String", "str")):
        v = one(run, st, r)
        if v.op == "ref" and targs[0].startswith("&"):
            return v
        return r
    return None


def to_info(run, st, r):
    return chase(run, st, r)


def anchor(run, d, path, c, targs, vals, st, pc, rty, span, caller):
    from .engine import Root, ref
    if d in ("anchor_lang::ToAccountInfo::to_account_info",):
        return to_info(run, st, vals[0])
    if d == "anchor_lang::Key::key":
        t = targs[0].lstrip("&")
        v = chase(run, st, vals[0])
        if t == "solana_pubkey::Pubkey":
            return v
        return lift(v, lambda l: l if l is UNDEF else mk("key", l))
    if d == "anchor_lang::Accounts::try_accounts" or (d.endswith("::try_accounts")):
        lk = c.get("key")
        if lk in run.p.fns and run.p.fns[lk]["local"]:
            sl = chase(run, st, vals[1])
            t = run.p.types.get(targs[0], {})
            if sl.op == "accslice" and t.get("k") == "adt":
                for i, (n, fty) in enumerate(t["variants"][0]["fields"]):
                    run.acct_name[sl.a[0] + i] = (n, fty)
            return None
        sl = chase(run, st, vals[1])
        if sl.op != "accslice":
            return None
        k = sl.a[0]
        st = st.copy()
        run.write_ref(st, vals[1], run.cref(mk("accslice", k + 1)), pc)
        a = run.account(k)
        ty = targs[0]
        run.acct_type[a] = ty
        if ty.startswith("core::option::Option<"):
            pres = mk("ite", mk("present", a), TRUE, FALSE)
            return Ok(ite(pres, Some(a), NONE)), st, pc
        return Ok(a), st, pc
    if d == "core::slice::<impl [T]>::get_unchecked":
        return None
    if "AccountLoader" in d:
        m = d.rsplit("::", 1)[1]
        if m in ("load", "load_mut", "load_init"):
            a = chase(run, st, vals[0])
            if m == "load_init":
                run.event(d, (a,), st, pc, span, caller)
                # a fresh account: zeroed
                st = st.copy()
                lt_ = run.loader_type(targs, c)
                st.m[Root("D", a)] = mk("zeroed", lt_ or "?")
                return Ok(data_ref(a)), st, pc
            run.loads.setdefault(a, set()).add(m)
            return Ok(lift(a, data_ref))
        if m in ("try_from", "try_from_unchecked"):
            a = chase(run, st, vals[-1])
            if a.op == "acct":
                run.acct_type.setdefault(a, c.get("key", "?"))
                run.acct_ctor.setdefault(a, set()).add(m)
            return Ok(a)
    if d.startswith(("anchor_lang::accounts::account::Account", "anchor_lang::accounts::interface_account::InterfaceAccount",
                     "anchor_lang::accounts::")):
        m = d.rsplit("::", 1)[1]
        if m in ("try_from", "try_from_unchecked") or (m == "try_from" and "signer" in d):
            a = chase(run, st, vals[-1])
            run.acct_ctor.setdefault(a, set()).add(m)
            return Ok(a)
        if m == "reload":
            a = chase(run, st, vals[0])
            st = st.copy()
            ch = run.chain(st)
            st.m[Root("D", a)] = mk("reload", a, ch)
            return Ok(UNIT), st, pc
        if m in ("to_account_info", "account_info"):
            return chase(run, st, vals[0])
    if d.startswith("unchecked_account::"):
        if d.endswith("account_info"):
            v = chase(run, st, vals[0])
            return run.temp2(st, v) + (pc,)
        return None
    if d == "anchor_lang::context::Context::<'a, 'b, 'c, 'info, T>::new":
        run.ctx_new = (vals[1], st, pc)
        return adt("Context", "Context", 0, [("program_id", vals[0]), ("accounts", vals[1]), ("remaining_accounts", vals[2]),
                                              ("bumps", vals[3])])
    if d.startswith("anchor_lang::context::CpiContext"):
        m = d.rsplit("::", 1)[1]
        if m in ("new", "new_with_signer"):
            return adt("CpiContext", "CpiContext", 0, [
                ("accounts", vals[1]), ("remaining_accounts", mk("arr")), ("program", chase(run, st, vals[0])),
                ("signer_seeds", vals[2] if m != "new" else run.cref(mk("arr")))])
        if m == "with_signer":
            return mk_upd(vals[0], "signer_seeds", vals[1])
        if m == "with_remaining_accounts":
            return mk_upd(vals[0], "remaining_accounts", vals[1])
        return None
    if d.startswith("borsh::de::BorshDeserialize::"):
        t = run.p.types.get(targs[0], {})
        if t.get("k") == "adt" and ("::instruction::" in targs[0]):
            fs = [(n, mk("sym", "ix." + n)) for n, _ in t["variants"][0]["fields"]]
            return Ok(adt(targs[0], t["variants"][0]["name"], 0, fs))
        return Ok(mk("sym", "borsh:" + targs[0])) if False else None
    if d == "anchor_lang::AccountsExit::exit":
        return Ok(UNIT) if not (c.get("key") in run.p.fns and run.p.fns[c["key"]]["local"]) else None
    if d == "anchor_lang::Id::id":
        return mk("progid", targs[0])
    if d.startswith("solana_account_info::AccountInfo::<'a>::") or d.startswith("anchor_lang::Lamports::"):
        m = d.rsplit("::", 1)[1]
        a = chase(run, st, vals[0])
        if m in ("lamports", "get_lamports"):
            return mk("lamports", a, run.chain(st))
        if m in ("data_len", "data_is_empty", "try_data_len"):
            v = mk("datalen", a) if run.chain(st) is CHAIN0 else mk("datalen", a, run.chain(st))
            if m == "data_is_empty":
                return eq(v, I(0))
            return Ok(v) if m.startswith("try") else v
        if m in ("try_borrow_data", "try_borrow_mut_data"):
            return Ok(data_ref(a))
        if m in ("sub_lamports", "add_lamports"):
            run.event(d, (a, vals[1]), st, pc, span, caller)
            st = st.copy()
            run.bump(st, mk("lam", m, a, vals[1]), pc)
            return Ok(UNIT), st, pc
        if m in ("is_signer", "is_writable"):
            return mk("fld", a, m)
        return None
    if d == "solana_rent::Rent::minimum_balance":
        return mk("minbal", vals[1])
    if d == "solana_rent::Rent::is_exempt":
        return le(mk("minbal", vals[2]), vals[1])
    if d == "solana_sysvar::Sysvar::get":
        t = targs[0]
        r, st = run.temp2(st, UNIT)
        return Ok(mk("sysvar", t.split("::")[-1])), st, pc
    if d == "solana_pubkey::Pubkey::find_program_address":
        s = run.snap(vals[0], st)
        p = run.snap(vals[1], st)
        return tup(mk("pda", s, p), mk("bump", s, p))
    if d == "solana_pubkey::Pubkey::to_bytes":
        return fld(chase(run, st, vals[0]), "0")
    if d.endswith("solana_pubkey::Pubkey::new_from_array"):
        return adt("solana_pubkey::Pubkey", "Pubkey", 0, [("0", vals[0])])
    if d.startswith(("core::fmt", "alloc::fmt", "core::panic::location", "solana_msg", "alloc::string::ToString",
                     "anchor_lang::error")):
        if rty == "()":
            return UNIT
        if d.startswith("anchor_lang::error"):
            return ERRTOK
        if rty.startswith("core::result"):
            return Ok(UNIT)
        return mk("fmt")
    if d == "anchor_lang::Event::data" or d.endswith("anchor_lang::Event>::data"):
        run.event("emit", (run.snap(vals[0], st),), st, pc, span, caller)
        return mk("eventdata", run.snap(vals[0], st))
    return None
