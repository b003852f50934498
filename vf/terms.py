"""Hash-consed value-flow terms with ordered decision DAGs (MTBDD) for control-dependent values.

All integers are mathematical integers; value-preserving conversions are transparent, lossy ones are explicit
('trunc').  A decision node is ('ite', atom, then, else) with atoms ordered by creation, so that two control
structures that compute the same choice intern to the same node."""
import sys
sys.setrecursionlimit(1000000)


class T:
    __slots__ = ("op", "a", "id", "sup")

    def __init__(self, op, a, i):
        self.op, self.a, self.id = op, a, i
        self.sup = None

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        _n[0] += 1
        t = T(op, a, _n[0])
        _tab[k] = t
    return t


def nterms():
    return _n[0]


def I(v):
    return mk("int", v)


TRUE, FALSE = I(1), I(0)
UNDEF = mk("undef")
UNIT = mk("adt", "()", "", 0, ())
ERRTOK = mk("errtok")


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- decision DAG
_memo = {}


def _subj(atom):
    """theory subject of an atom: comparisons against constants and between two terms"""
    return atom.op in ("eq", "lt")


_imp = {}


def implied(atom, val, other):
    """value of `other` known from atom==val, or None"""
    if atom is other:
        return val
    if atom.op not in ("eq", "lt") or other.op not in ("eq", "lt"):
        return None
    k = (atom, val, other)
    if k in _imp:
        return _imp[k]
    r = _implied(atom, val, other)
    _imp[k] = r
    return r


def _rng(atom, val):
    """(subject, lo, hi, ne) meaning of a comparison with a constant: subject in [lo,hi], != ne"""
    x, y = atom.a
    if atom.op == "eq":
        if y.op == "int":
            return (x, y.a[0], y.a[0], None) if val else (x, None, None, y.a[0])
        if x.op == "int":
            return (y, x.a[0], x.a[0], None) if val else (y, None, None, x.a[0])
        return None
    if y.op == "int":  # x < c
        return (x, None, y.a[0] - 1, None) if val else (x, y.a[0], None, None)
    if x.op == "int":  # c < y
        return (y, x.a[0] + 1, None, None) if val else (y, None, x.a[0], None)
    return None


def _implied(atom, val, other):
    r1 = _rng(atom, val)
    if r1:
        t2 = _rng(other, True)
        if not t2 or t2[0] is not r1[0]:
            return None
        f2 = _rng(other, False)
        _, lo, hi, ne = r1

        def within(r):  # r1 subset of r
            _, l, h, n = r
            if l is None and h is None and n is not None:
                return (ne == n) or (lo is not None and lo > n) or (hi is not None and hi < n)
            if l is not None and (lo is None or lo < l):
                return False
            if h is not None and (hi is None or hi > h):
                return False
            return True
        if within(t2):
            return True
        if within(f2):
            return False
        return None
    # between two terms
    a, b = atom.a
    c, d = other.a
    if {a, b} == {c, d}:
        if atom.op == "lt" and val:
            if other.op == "eq":
                return False
            return (a is c)
        if atom.op == "eq" and val:
            if other.op == "lt":
                return False
        # not lt(a,b): nothing about lt(b,a) or eq
        return None
    return None


_grp = {}


def group(atom):
    """bit of the set of atoms that can say something about each other: comparisons of one subject with constants, or
    comparisons of one pair of terms"""
    g = atom.sup
    if g is None:
        if atom.op in ("eq", "lt"):
            x, y = atom.a
            k = y if x.op == "int" else x if y.op == "int" else (x, y) if x.id < y.id else (y, x)
        else:
            k = ("atom", atom)
        g = _grp.get(k)
        if g is None:
            g = 1 << len(_grp)
            _grp[k] = g
        atom.sup = g
    return g


def groups(t):
    """bit set of the groups of the atoms t depends on"""
    if t.op != "ite":
        return 0
    if t.sup is None:
        a, x, y = t.a
        t.sup = group(a) | groups(x) | groups(y)
    return t.sup


def _raw(atom, x, y):
    if x is y:
        return x
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    return mk("ite", atom, x, y)


def cof(t, atom, val):
    """cofactor of t with atom := val (and what that implies)"""
    if t.op != "ite":
        return t
    g = group(atom)
    if not groups(t) & g:
        return t
    k = ("cof", t, atom, val)
    r = _memo.get(k)
    if r is not None:
        return r
    a, x, y = t.a
    v = implied(atom, val, a) if group(a) == g else None
    if v is True:
        r = cof(x, atom, val)
    elif v is False:
        r = cof(y, atom, val)
    else:
        x1, y1 = cof(x, atom, val), cof(y, atom, val)
        r = t if x1 is x and y1 is y else mk_ite_atom(a, x1, y1)
    _memo[k] = r
    return r


def has_rel(t, atom):
    return t.op == "ite" and groups(t) & group(atom) != 0


def norm_leafpair(atom, x, y):
    """canonical forms of a two-leaf choice: min/max and common linear parts"""
    if atom.op == "eq" and x.op in NUM and y.op in NUM and atom.a[0].op in NUM and atom.a[1].op in NUM:
        d, z = mk_sub(y, x), mk_sub(atom.a[0], atom.a[1])       # if p == q then x else x + (p - q)
        if d is z or d is mk_sub(atom.a[1], atom.a[0]):
            return y
    if atom.op == "lt":
        a, b = atom.a
        if x is a and y is b:
            return mk_min(a, b)
        if x is b and y is a:
            return mk_max(a, b)
    return None


def mk_ite_atom(atom, x, y):
    """if atom then x else y, where atom may be anywhere in the order"""
    if x is y:
        return x
    k = ("iteA", atom, x, y)
    r = _memo.get(k)
    if r is not None:
        return r
    x1 = cof(x, atom, True) if has_rel(x, atom) else x
    y1 = cof(y, atom, False) if has_rel(y, atom) else y
    r = _ite_ord(atom, x1, y1)
    _memo[k] = r
    return r


def _ite_ord(atom, x, y):
    if x is y or y is UNDEF:
        return x
    if x is UNDEF:
        return y
    k = ("iteO", atom, x, y)
    r = _memo.get(k)
    if r is not None:
        return r
    tx = x.a[0].id if x.op == "ite" else 1 << 60
    ty = y.a[0].id if y.op == "ite" else 1 << 60
    top = min(tx, ty)
    if top < atom.id:
        b = x.a[0] if tx == top else y.a[0]
        r = mk_ite_atom(b, _ite_ord(atom, cof(x, b, True), cof(y, b, True)),
                        _ite_ord(atom, cof(x, b, False), cof(y, b, False)))
    else:
        r = None
        if x.op != "ite" and y.op != "ite":
            r = norm_leafpair(atom, x, y)
        if r is None:
            r = merge_struct(atom, x, y)
        if r is None:
            r = mk("ite", atom, x, y)
    _memo[k] = r
    return r


def merge_struct(atom, x, y):
    """push a choice into aggregates of the same shape, so that fields merge separately"""
    if x.op == "adt" and y.op == "adt" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and x.a[3] and \
            len(x.a[3]) == len(y.a[3]):
        d = dict(y.a[3])
        if all(n in d for n, _ in x.a[3]):
            return mk("adt", x.a[0], x.a[1], x.a[2],
                      tuple((n, mk_ite_atom(atom, v, d[n])) for n, v in x.a[3]))
    if x.op == "upd" or y.op == "upd":
        bx, ux = upd_split(x)
        by, uy = upd_split(y)
        if bx is by:
            names = sorted(set(ux) | set(uy))
            r = bx
            for n in names:
                v = mk_ite_atom(atom, ux[n] if n in ux else fld(bx, n), uy[n] if n in uy else fld(by, n))
                r = mk_upd(r, n, v)
            return r
    if x.op == "arr" and y.op == "arr" and len(x.a) == len(y.a):
        return mk("arr", *[mk_ite_atom(atom, p, q) for p, q in zip(x.a, y.a)])
    if x.op in NUM and y.op in NUM and (x.op == "lin" or y.op == "lin"):
        c1, d1 = lin_of(x)
        c2, d2 = lin_of(y)
        common = {t: k for t, k in d1.items() if d2.get(t) == k}
        if common or (c1 == c2 and c1 != 0):
            c = c1 if c1 == c2 else 0
            r1 = lin_make(c1 - c, {t: k for t, k in d1.items() if t not in common})
            r2 = lin_make(c2 - c, {t: k for t, k in d2.items() if t not in common})
            return mk_add(lin_make(c, common), mk_ite_atom(atom, r1, r2))
    return None


def ite(c, x, y):
    """c is a boolean decision DAG"""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op != "ite":
        return mk_ite_atom(c, x, y)
    k = ("ite", c, x, y)
    r = _memo.get(k)
    if r is not None:
        return r
    a, t, f = c.a
    x1 = cof(x, a, True) if has_rel(x, a) else x
    y1 = cof(y, a, True) if has_rel(y, a) else y
    x0 = cof(x, a, False) if has_rel(x, a) else x
    y0 = cof(y, a, False) if has_rel(y, a) else y
    r = mk_ite_atom(a, ite(t, x1, y1), ite(f, x0, y0))
    _memo[k] = r
    return r


def atom_bool(atom):
    return mk_ite_atom(atom, TRUE, FALSE)


def as_bool(t):
    """a term of boolean type as a decision DAG with leaves 0/1"""
    if t.op == "int":
        return TRUE if t.a[0] else FALSE
    if t.op == "ite":
        k = ("asb", t)
        r = _memo.get(k)
        if r is None:
            r = mk_ite_atom(t.a[0], as_bool(t.a[1]), as_bool(t.a[2]))
            _memo[k] = r
        return r
    if t is UNDEF:
        return t
    return mk("ite", t, TRUE, FALSE)


def b_not(t):
    if t.op == "int":
        return I(1 - t.a[0])
    if t is UNDEF:
        return t
    k = ("not", t)
    r = _memo.get(k)
    if r is None:
        r = mk_ite_atom(t.a[0], b_not(t.a[1]), b_not(t.a[2]))
        _memo[k] = r
    return r


def b_and(x, y):
    return ite(x, y, FALSE)


def b_or(x, y):
    return ite(x, TRUE, y)


def constrain(f, c):
    """simplify f under the assumption c"""
    if f.op != "ite" or c is TRUE or c.op != "ite":
        return f
    if c is f:
        return TRUE
    k = ("con", f, c)
    r = _memo.get(k)
    if r is not None:
        return r
    fs = groups(f)
    a, t, e = c.a
    if not fs & group(a):
        if t is FALSE:
            r = constrain(f, e)
        elif e is FALSE:
            r = constrain(f, t)
        elif not groups(c) & fs:
            r = f
        else:
            r = constrain(f, b_or(t, e))
    else:
        if t is FALSE:
            r = constrain(cof(f, a, False), e)
        elif e is FALSE:
            r = constrain(cof(f, a, True), t)
        else:
            r = mk_ite_atom(a, constrain(cof(f, a, True), t), constrain(cof(f, a, False), e))
    _memo[k] = r
    return r


def lift(t, f):
    """apply f to every leaf of a decision DAG"""
    if t.op != "ite":
        return f(t)
    m = {}

    def go(x):
        if x.op != "ite":
            return f(x)
        r = m.get(x)
        if r is None:
            r = mk_ite_atom(x.a[0], go(x.a[1]), go(x.a[2]))
            m[x] = r
        return r
    return go(t)


def leaves(t, acc=None, seen=None):
    if acc is None:
        acc, seen = [], set()
    if t in seen:
        return acc
    seen.add(t)
    if t.op == "ite":
        leaves(t.a[1], acc, seen)
        leaves(t.a[2], acc, seen)
    elif t not in acc:
        acc.append(t)
    return acc


def leaf_cond(t, leaf):
    """boolean DAG of the condition under which t is `leaf`"""
    return lift(t, lambda x: TRUE if x is leaf else FALSE)


def nleaves(t):
    return len(leaves(t))


# ---------------------------------------------------------------- arithmetic
NUM = {"lin", "int", "mul", "div", "rem", "fld", "sym", "min", "max", "pow", "trunc", "call", "sel", "and", "or", "xor",
       "divc", "mu", "discr", "sat_sub", "sat_add", "ite", "data", "isqrt", "wrap", "deref"}


def lin_of(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin_make(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def mk_add(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    # constants distribute over small choices of constants
    if x.op == "ite" and y.op == "int" and _const_leaves(x):
        return lift(x, lambda l: mk_add(l, y))
    if y.op == "ite" and x.op == "int" and _const_leaves(y):
        return lift(y, lambda l: mk_add(x, l))
    c1, d1 = lin_of(x)
    c2, d2 = lin_of(y)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return lin_make(c1 + c2, d)


def _const_leaves(t):
    return all(l.op in ("int", "undef") for l in leaves(t))


def mk_scale(x, k):
    if x is UNDEF:
        return x
    if x.op == "ite" and _const_leaves(x):
        return lift(x, lambda l: mk_scale(l, k))
    c, d = lin_of(x)
    return lin_make(c * k, {t: v * k for t, v in d.items()})


def mk_sub(x, y):
    return mk_add(x, mk_scale(y, -1))


def mk_mul(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x.op == "int":
        return mk_scale(y, x.a[0])
    if y.op == "int":
        return mk_scale(x, y.a[0])

    def factors(t):
        if t.op == "mul":
            return 1, list(t.a)
        if t.op == "lin":
            c, d = lin_of(t)
            if c == 0 and len(d) == 1:
                (b, k), = d.items()
                kk, f = factors(b)
                return k * kk, f
        return 1, [t]
    k1, f1 = factors(x)
    k2, f2 = factors(y)
    r = mk("mul", *sorted(f1 + f2, key=lambda t: t.id))
    return mk_scale(r, k1 * k2)


def mk_div(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if y.op == "int" and y.a[0] == 1:
        return x
    if x.op == "int" and y.op == "int" and y.a[0]:
        return I(x.a[0] // y.a[0])
    if x.op == "int" and x.a[0] == 0:
        return x
    # ceil division written as (x + y - 1) / y
    if _is_ceil(x, y):
        return mk_divc(mk_add(mk_sub(x, y), I(1)), y)
    return mk("div", x, y)


def _is_ceil(x, y):
    if y.op == "int":
        return False
    c, d = lin_of(x)
    if y.op == "lin":
        yc, yd = lin_of(y)
        return c == yc - 1 and len(d) > len(yd) and all(d.get(t) == k for t, k in yd.items())
    return c == -1 and d.get(y) == 1 and len(d) >= 2


def mk_divc(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x.op == "int" and y.op == "int" and y.a[0]:
        return I(-(-x.a[0] // y.a[0]))
    if y.op == "int" and y.a[0] > 0:
        return mk_div(mk_add(x, I(y.a[0] - 1)), y)
    return mk("divc", x, y)


def mk_pow(x, y):
    if y.op == "int" and 0 <= y.a[0] <= 4 and x is not UNDEF:
        r = I(1)
        for _ in range(y.a[0]):
            r = mk_mul(r, x)
        return r
    return mk("pow", x, y)


def mk_rem(x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x.op == "int" and y.op == "int" and y.a[0]:
        return I(x.a[0] % y.a[0])
    return mk("rem", x, y)


def mk_min(x, y):
    if x is y:
        return x
    if x.op == "int" and y.op == "int":
        return x if x.a[0] < y.a[0] else y
    return mk("min", *sorted((x, y), key=lambda t: t.id))


def mk_max(x, y):
    if x is y:
        return x
    if x.op == "int" and y.op == "int":
        return x if x.a[0] > y.a[0] else y
    return mk("max", *sorted((x, y), key=lambda t: t.id))


def pow2(t):
    return t.op == "int" and t.a[0] >= 0


def mk_shl(x, y):
    if y.op == "int":
        return mk_scale(x, 1 << y.a[0])
    return mk("shl", x, y)


def mk_shr(x, y):
    if y.op == "int":
        return mk_div(x, I(1 << y.a[0]))
    return mk("shr", x, y)


def mk_bit(op, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x.op == "int" and y.op == "int":
        a, b = x.a[0], y.a[0]
        return I(a & b if op == "and" else a | b if op == "or" else a ^ b)
    for p, q in ((x, y), (y, x)):
        if p.op == "ite" and nleaves(p) <= 8 and _const_leaves(p):
            return lift(p, lambda l: mk_bit(op, l, q))
    return mk(op, *sorted((x, y), key=lambda t: (t.op == "int", t.id)))


# ---------------------------------------------------------------- comparisons
def _cmp_lift(f, x, y):
    """lift a comparison over decision operands when that stays small"""
    if x.op == "ite" and y.op == "ite":
        if nleaves(x) * nleaves(y) <= 36:
            return lift(x, lambda a: lift(y, lambda b: f(a, b)))
        return None
    if x.op == "ite" and nleaves(x) <= 64:
        return lift(x, lambda a: f(a, y))
    if y.op == "ite" and nleaves(y) <= 64:
        return lift(y, lambda b: f(x, b))
    return None


def maybe_signed(t):
    """may the mathematical value be negative?  (differences, signed clock values, signed conversions)"""
    k = ("sgn", t)
    r = _memo.get(k)
    if r is None:
        if t.op == "int":
            r = t.a[0] < 0
        elif t.op == "lin":
            r = t.a[0] < 0 or any(v < 0 or maybe_signed(x) for x, v in t.a[1])
        elif t.op in ("mul", "div", "divc", "min", "max", "rem"):
            r = any(maybe_signed(x) for x in t.a)
        elif t.op == "ite":
            r = any(maybe_signed(x) for x in leaves(t))
        elif t.op == "fld":
            r = t.a[1] == "unix_timestamp"
        else:
            r = t.op not in ("sym", "and", "or", "xor", "sel", "isqrt", "pow", "call", "lamports", "minbal")
        _memo[k] = r
    return r


def lift_lin(f, t, limit=12):
    """f over a linear form whose summands include a small choice: the choice moves outside; None if there is none"""
    if t.op != "lin":
        return None
    for x, k in t.a[1]:
        if x.op == "ite" and nleaves(x) <= limit:
            rest = lin_make(t.a[0], {y: v for y, v in t.a[1] if y is not x})
            return lift(x, lambda l: f(mk_add(rest, mk_scale(l, k))))
    return None


def eq(x, y):
    if x is y:
        return TRUE
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x.op == "ite" or y.op == "ite":
        r = _cmp_lift(eq, x, y)
        if r is not None:
            return r
    if x.op == "lin" or y.op == "lin":
        r = lift_lin(lambda l: eq(l, y), x)
        if r is None:
            r = lift_lin(lambda l: eq(x, l), y)
        if r is not None:
            return r
    if x.op == "int" and y.op == "int":
        return FALSE
    if x.op == "adt" and y.op == "adt" and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return FALSE
        d = dict(y.a[3])
        r = TRUE
        for n, v in x.a[3]:
            if n not in d:
                break
            r = b_and(r, eq(v, d[n]))
        else:
            return r
    if x.op == "arr" and y.op == "arr" and len(x.a) == len(y.a):
        r = TRUE
        for p, q in zip(x.a, y.a):
            r = b_and(r, eq(p, q))
            if r is FALSE:
                break
        return r
    if x.op == "adt" and x.a[1] in ("None", "Some") and y.op not in ("adt",):
        x, y = y, x
    if x.op in NUM and y.op in NUM and (x.op == "lin" or y.op == "lin"):
        # x - y == 0 in a canonical orientation
        c, d = lin_of(mk_sub(x, y))
        if not d:
            return TRUE if c == 0 else FALSE
        for t, k in d.items():
            if k in (1, -1) and t.op in ("min", "max"):
                # p == min(p, q): p <= q
                rest = lin_make(-k * c, {u: -k * j for u, j in d.items() if u is not t})
                if rest in t.a:
                    o = t.a[1] if rest is t.a[0] else t.a[0]
                    return b_not(lt(o, rest) if t.op == "min" else lt(rest, o))
        if c < 0 and all(k < 0 for k in d.values()):
            c, d = -c, {t: -k for t, k in d.items()}
        if c >= 0 and all(k > 0 for k in d.values()) and not any(maybe_signed(t) for t in d):
            if c > 0:
                return FALSE
            r = TRUE
            for t in sorted(d, key=lambda t: t.id):
                r = b_and(r, eq(t, I(0)))
            return r
        ks = sorted(d.items(), key=lambda p: p[0].id)
        if len(d) == 1:
            (t, k), = d.items()
            if (-c) % k == 0:
                return eq(t, I(-c // k))
            return FALSE
        if ks[0][1] < 0:
            c, d = -c, {t: -k for t, k in d.items()}
        pos = lin_make(0, {t: k for t, k in d.items() if k > 0})
        neg = lin_make(-c, {t: -k for t, k in d.items() if k < 0})
        x, y = pos, neg
        if x.op == "int" or y.op == "int":
            if x.op == "int":
                x, y = y, x
            return mk("ite", mk("eq", x, y), TRUE, FALSE)
        if x.id > y.id:
            x, y = y, x
        return mk("ite", mk("eq", x, y), TRUE, FALSE)
    if y.op == "int":
        pass
    elif x.op == "int" or x.id > y.id:
        x, y = y, x
    return mk("ite", mk("eq", x, y), TRUE, FALSE)


SIGNED = set()


def lt(x, y, signed=False):
    if x is y:
        return FALSE
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if x.op == "ite" or y.op == "ite":
        r = _cmp_lift(lambda a, b: lt(a, b, signed), x, y)
        if r is not None:
            return r
    if x.op == "int" and y.op == "int":
        return TRUE if x.a[0] < y.a[0] else FALSE
    if x.op == "lin" or y.op == "lin":
        r = lift_lin(lambda l: lt(l, y, signed), x)
        if r is None:
            r = lift_lin(lambda l: lt(x, l, signed), y)
        if r is not None:
            return r
    if not signed:
        if x.op == "int" and x.a[0] == 0 and y.op == "lin":
            return b_not(eq(y, x))
        if y.op == "int" and y.a[0] == 1 and x.op == "lin":
            return eq(x, I(0))
    if y.op == "min" and x in y.a or x.op == "max" and y in x.a:
        return FALSE
    if not signed and x.op in ("min", "max") and y.op in ("int", "sym", "fld"):
        f = b_or if x.op == "min" else b_and
        return f(lt(x.a[0], y), lt(x.a[1], y))
    if not signed and y.op in ("min", "max") and x.op in ("int", "sym", "fld"):
        f = b_and if y.op == "min" else b_or
        return f(lt(x, y.a[0]), lt(x, y.a[1]))
    # linear: move common parts
    if x.op == "lin" or y.op == "lin":
        c, d = lin_of(mk_sub(x, y))  # x - y < 0
        if not d:
            return TRUE if c < 0 else FALSE
        pos = {t: k for t, k in d.items() if k > 0}
        neg = {t: -k for t, k in d.items() if k < 0}
        if c > 0:
            x, y = lin_make(c, pos), lin_make(0, neg)
        else:
            x, y = lin_make(0, pos), lin_make(-c, neg)
        if x.op == "int" and y.op == "int":
            return TRUE if x.a[0] < y.a[0] else FALSE
        # k*t < c
        if y.op == "int" and len(pos) == 1:
            (t, k), = pos.items()
            x, y = t, I(-(-y.a[0] // k))
        elif x.op == "int" and len(neg) == 1:
            (t, k), = neg.items()
            x, y = I(x.a[0] // k), t
    if not signed:
        if y.op == "int":
            if y.a[0] <= 0:
                return FALSE
            if y.a[0] == 1:
                return eq(x, I(0))
        if x.op == "int":
            if x.a[0] < 0:
                return TRUE
            if x.a[0] == 0:
                return b_not(eq(y, I(0)))
    if x.op == "int":  # c < y  <=> not (y < c+1)
        return b_not(mk("ite", mk("lt", y, I(x.a[0] + 1)), TRUE, FALSE))
    return mk("ite", mk("lt", x, y), TRUE, FALSE)


def le(x, y, signed=False):
    return b_not(lt(y, x, signed))


# ---------------------------------------------------------------- aggregates
def adt(ty, var, discr, fields):
    return mk("adt", ty, var, discr, tuple(fields))


def fld(t, name):
    op = t.op
    if op == "adt":
        for n, v in t.a[3]:
            if n == name:
                return v
        return mk("fld", t, name) if not t.a[3] else UNDEF
    if op == "upd":
        if t.a[1] == name:
            return t.a[2]
        return fld(t.a[0], name)
    if op == "ite":
        k = ("fld", t, name)
        r = _memo.get(k)
        if r is None:
            r = lift(t, lambda l: fld(l, name))
            _memo[k] = r
        return r
    if op == "undef":
        return t
    if op == "closure" and name.isdigit() and int(name) < len(t.a[2]):
        return t.a[2][int(name)]
    return mk("fld", t, name)


def mk_upd(t, name, v):
    op = t.op
    if op == "closure" and name.isdigit() and int(name) < len(t.a[2]):
        l = list(t.a[2])
        l[int(name)] = v
        return mk("closure", t.a[0], t.a[1], tuple(l))
    if op == "adt" and any(n == name for n, _ in t.a[3]):
        return mk("adt", t.a[0], t.a[1], t.a[2], tuple((n, v if n == name else w) for n, w in t.a[3]))
    if op == "ite":
        return lift(t, lambda l: mk_upd(l, name, v))
    base, d = upd_split(t)
    if v is fld(base, name):
        d.pop(name, None)
    else:
        d[name] = v
    r = base
    for n in sorted(d):
        r = mk("upd", r, n, d[n])
    return r


def upd_split(t):
    d = {}
    while t.op == "upd":
        d.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, d


def chk(kind, r, bad):
    """an arithmetic result that fails under `bad`; the failure only matters where it is not propagated"""
    if bad is FALSE:
        return adt("Option", "Some", 1, [("0", r)]) if kind == "Option" else adt("Result", "Ok", 0, [("0", r)])
    if bad is TRUE:
        return adt("Option", "None", 0, ()) if kind == "Option" else adt("Result", "Err", 1, [("0", ERRTOK)])
    return mk("chk", kind, r, bad)


def as_var(t, variant, discr):
    """downcast to an enum variant"""
    if t.op == "adt":
        return t if t.a[1] == variant else UNDEF
    if t.op == "chk":
        if variant == "Some":
            return adt("Option", "Some", 1, [("0", t.a[1])])
        if variant == "Ok":
            return adt("Result", "Ok", 0, [("0", t.a[1])])
        if variant == "Err":
            return adt("Result", "Err", 1, [("0", ERRTOK)])
        return adt("Option", "None", 0, ())
    if t.op == "ite":
        k = ("asv", t, variant)
        r = _memo.get(k)
        if r is None:
            r = lift(t, lambda l: as_var(l, variant, discr))
            _memo[k] = r
        return r
    if t.op in ("undef",):
        return t
    if t.op == "as" and t.a[1] == variant:
        return t
    return mk("as", t, variant)


def discr_of(t, two=None):
    """two: (name of variant 0 discr, name of variant 1 discr) when the enum has exactly two variants"""
    if t.op == "adt":
        return I(t.a[2])
    if t.op == "ite":
        k = ("disc", t, two)
        r = _memo.get(k)
        if r is None:
            r = lift(t, lambda l: discr_of(l, two))
            _memo[k] = r
        return r
    if t is UNDEF:
        return t
    if t.op == "chk":
        return ite(t.a[2], I(0), I(1)) if t.a[0] == "Option" else ite(t.a[2], I(1), I(0))
    if two:
        (n0, d0), (n1, d1) = two
        return mk_ite_atom(mk("is", t, n1), I(d1), I(d0))
    return mk("discr", t)


def sel(t, i):
    """array element"""
    if i.op == "ite" and nleaves(i) <= 8:
        return lift(i, lambda l: sel(t, l))
    if t.op == "arr":
        if i.op == "int":
            return t.a[i.a[0]] if 0 <= i.a[0] < len(t.a) else UNDEF
        if t.a and all(x is t.a[0] for x in t.a):
            return t.a[0]
        return mk("sel", t, i)
    if t.op == "repeat":
        return t.a[0]
    if t.op == "store":
        if t.a[1] is i:
            return t.a[2]
        if t.a[1].op == "int" and i.op == "int":
            return sel(t.a[0], i)
        return mk("sel", t, i)
    if t.op == "ite":
        return lift(t, lambda l: sel(l, i))
    if t is UNDEF or i is UNDEF:
        return UNDEF
    return mk("sel", t, i)


def store(t, i, v):
    if t.op == "arr" and i.op == "int" and 0 <= i.a[0] < len(t.a):
        l = list(t.a)
        l[i.a[0]] = v
        return mk("arr", *l)
    if t.op == "repeat" and i.op == "int" and t.a[1] <= 64 and i.a[0] < t.a[1]:
        l = [t.a[0]] * t.a[1]
        l[i.a[0]] = v
        return mk("arr", *l)
    if t.op == "ite":
        return lift(t, lambda l: store(l, i, v))
    if t.op == "store" and t.a[1] is i:
        return mk("store", t.a[0], i, v)
    if v is sel(t, i):
        return t
    return mk("store", t, i, v)


# ---------------------------------------------------------------- equality under a condition
ARITH = {"lin", "mul", "div", "divc", "rem", "min", "max", "and", "or", "xor", "pow", "trunc", "adt", "upd", "call", "arr",
         "sat_sub", "sat_add", "chk", "isqrt", "wrap", "shl", "shr", "cast", "tuple", "fld", "as"}


def remake(t, g):
    """rebuild t from g(children) through the simplifying constructors"""
    op, a = t.op, t.a
    if op == "lin":
        r = I(a[0])
        for x, k in a[1]:
            r = mk_add(r, mk_scale(g(x), k))
        return r
    if op == "mul":
        r = I(1)
        for x in a:
            r = mk_mul(r, g(x))
        return r
    two = {"div": mk_div, "divc": mk_divc, "rem": mk_rem, "min": mk_min, "max": mk_max, "shl": mk_shl, "shr": mk_shr}.get(op)
    if two:
        return two(g(a[0]), g(a[1]))
    if op in ("and", "or", "xor"):
        return mk_bit(op, g(a[0]), g(a[1]))
    if op == "adt":
        return mk("adt", a[0], a[1], a[2], tuple((n, g(v)) for n, v in a[3]))
    if op == "upd":
        return mk_upd(g(a[0]), a[1], g(a[2]))
    if op == "fld":
        return fld(g(a[0]), a[1])

    def go(x):
        if isinstance(x, T):
            return g(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return mk(op, *[go(x) for x in a])


def given(t, c, memo=None):
    """t simplified under the assumption c, inside arithmetic too"""
    if memo is None:
        memo = {}

    def g(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            r = ite(c, x, UNDEF)
            r = (lift(r, g) if not nested(r) else regrow(r, g)) if r.op == "ite" else g(r)
        elif x.op in ARITH and (has_ite(x) or has_min(x)):
            r = remake(x, g)
        else:
            r = x
        if r.op in ("min", "max"):
            p, q = r.a
            if b_and(c, lt(p, q)) is FALSE:      # p >= q
                r = q if r.op == "min" else p
            elif b_and(c, lt(q, p)) is FALSE:
                r = p if r.op == "min" else q
        memo[x] = r
        return r
    return g(t)


def nested(t):
    """some condition inside the choice t compares terms that contain choices themselves"""
    k = ("nested", t)
    r = _memo.get(k)
    if r is None:
        r = t.op == "ite" and (any(has_ite(x) for x in kids(t.a[0])) or nested(t.a[1]) or nested(t.a[2]))
        _memo[k] = r
    return r


def regrow(t, g, memo=None):
    """the choice t with g applied to its leaves and inside its conditions"""
    memo = {} if memo is None else memo
    if t.op != "ite":
        return g(t)
    r = memo.get(t)
    if r is None:
        k = t.a[0]
        if k.op in ("eq", "lt") and any(has_ite(x) for x in kids(k)):
            cond = (eq if k.op == "eq" else lt)(*[g(x) if isinstance(x, T) else x for x in k.a[:2]])
        elif k.op == "fits" and has_ite(k.a[0]):
            from .builtins import fits_cond
            cond = fits_cond(g(k.a[0]), int(k.a[1][1:]), k.a[1][0] == "i")
        else:
            cond = atom_bool(k)
        r = memo[t] = ite(cond, regrow(t.a[1], g, memo), regrow(t.a[2], g, memo))
    return r


def has_ite(t):
    k = ("hasite", t)
    r = _memo.get(k)
    if r is None:
        r = t.op == "ite" or t.op in ARITH and any(has_ite(x) for x in kids(t))
        _memo[k] = r
    return r


def has_min(t):
    k = ("hasmin", t)
    r = _memo.get(k)
    if r is None:
        r = t.op in ("min", "max") or t.op in ARITH and any(has_min(x) for x in kids(t))
        _memo[k] = r
    return r


def inner_min(t):
    """the comparison a minimum or maximum inside the arithmetic of t depends on"""
    if t.op in ("min", "max") and not has_ite(t):
        return lt(*t.a)
    if t.op in ARITH:
        for x in kids(t):
            if has_min(x):
                return inner_min(x)
    return None


def kids(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            yield x


def inner_atom(t):
    """an atom some choice inside t still depends on"""
    if t.op == "ite":
        k = t.a[0]
        if k.op in ("eq", "lt"):
            for x in kids(k):
                if has_ite(x):
                    return inner_atom(x) or k
        return k
    if t.op in ARITH:
        for x in kids(t):
            if has_ite(x):
                return inner_atom(x)
    return None


def lin_multiple(a, b, eqs):
    """a - b is a multiple of p - q for a known equality p == q"""
    if a.op not in NUM or b.op not in NUM:
        return False
    c, d0 = lin_of(mk_sub(a, b))
    if not d0:
        return c == 0
    for p, q in eqs:
        pc, pd = lin_of(mk_sub(p, q))
        if set(pd) == set(d0):
            t = next(iter(pd))
            n, m = d0[t], pd[t]
            if c * m == pc * n and all(d0[x] * m == pd[x] * n for x in pd):
                return True
    return False


def replace(t, m, memo=None):
    """t with the terms in the map m replaced, through the simplifying constructors"""
    memo = {} if memo is None else memo
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        if any(isinstance(x, T) for x in kids(t)):
            r = lift(t, lambda l: remake(l, lambda k: replace(k, m, memo))) if t.op != "ite" else \
                ite(cond_replace(t.a[0], m, memo), replace(t.a[1], m, memo), replace(t.a[2], m, memo))
        else:
            r = t
        memo[t] = r
    return r


def cond_replace(k, m, memo):
    x, y = (replace(z, m, memo) if isinstance(z, T) else z for z in k.a[:2]) if len(k.a) >= 2 else (None, None)
    if k.op == "eq":
        return eq(x, y)
    if k.op == "lt":
        return lt(x, y)
    return atom_bool(mk(k.op, *[replace(z, m, memo) if isinstance(z, T) else z for z in k.a]))


def same_under(a, b, c, budget=None, eqs=()):
    """a == b whenever c holds: case distinction over the choices left inside the two terms"""
    if budget is None:
        budget = [3000]
    if c is FALSE or a is b:
        return True
    if ite(c, a, UNIT) is ite(c, b, UNIT):
        return True
    budget[0] -= 1
    if budget[0] < 0:
        raise RuntimeError("comparison too large")
    a, b = given(a, c), given(b, c)
    if a is b or (a.op == "ite" or b.op == "ite") and ite(c, a, UNIT) is ite(c, b, UNIT):
        return True
    k = inner_atom(a) or inner_atom(b)
    if k is None:
        if lin_multiple(a, b, eqs):
            return True
        m = {}
        for p, q in eqs:
            if is_int(p):
                p, q = q, p
            if is_int(q) and not is_int(p):
                m[p] = q
        if m and replace(a, m) is replace(b, m):
            return True
        ab = inner_min(a) if has_min(a) else inner_min(b) if has_min(b) else None
        if ab is not None and ab not in (TRUE, FALSE) and b_and(c, ab) is not FALSE and b_and(c, b_not(ab)) is not FALSE:
            return same_under(a, b, b_and(c, ab), budget, eqs) and same_under(a, b, b_and(c, b_not(ab)), budget, eqs)
        same_under.why = (a, b, c)
        return False
    ab = atom_bool(k)
    return same_under(a, b, b_and(c, ab), budget, eqs + (k.a,) if k.op == "eq" else eqs) and \
        same_under(a, b, b_and(c, b_not(ab)), budget, eqs)


# ---------------------------------------------------------------- printing
def show(t, depth=12, _m=None):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, depth - 1)
    if op == "int":
        return str(a[0])
    if op == "sym":
        return str(a[0])
    if op == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "as":
        return "%s?%s" % (s(a[0]), a[1])
    if op == "is":
        return "%s is %s" % (s(a[0]), a[1])
    if op == "ite":
        return "(if %s then %s else %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "lin":
        out = []
        for x, k in a[1]:
            out.append(("%s" if k == 1 else "-%s" if k == -1 else "%d*%%s" % k) % s(x))
        if a[0]:
            out.append(str(a[0]))
        return "(" + " + ".join(out) + ")"
    if op == "adt":
        if t.a[0].endswith("Pubkey") and a[3] and isinstance(a[3][0][1], T) and a[3][0][1].op == "arr":
            return "Pubkey#%d" % t.id
        nm = a[0].split("<")[0].split("::")[-1]
        if a[1] and a[1] != nm:
            nm += "::" + a[1]
        return "%s{%s}" % (nm, ", ".join("%s:%s" % (n, s(v)) for n, v in a[3]))
    if op == "upd":
        b, d = upd_split(t)
        return "%s with {%s}" % (s(b), ", ".join("%s=%s" % (n, s(v)) for n, v in sorted(d.items())))
    if op == "chk":
        return "chk(%s)" % s(a[1])
    if op == "call":
        return "%s(%s)" % (short(a[0]), ", ".join(s(x) for x in a[1:]))
    if op == "arr" and len(a) > 8:
        return "[%s, … %d]" % (s(a[0]), len(a))
    if op in ("eq", "lt"):
        return "%s %s %s" % (s(a[0]), {"eq": "==", "lt": "<"}[op], s(a[1]))
    return "%s(%s)" % (op, ", ".join(s(x) for x in a))


def short(p):
    if not isinstance(p, str):
        return str(p)
    p = p.split("<")[0] if not p.startswith("<") else p
    return "::".join(p.split("::")[-2:])


def subterms(t, f=None, seen=None):
    """all subterms (including inside tuples)"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen
