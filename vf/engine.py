"""Whole-function value-flow over dumped MIR: one forward pass in topological order, joins build decision nodes,
loops become mu-terms found by a monotone fixpoint.  Nothing is executed and no paths are enumerated."""
import json
import re
from .terms import *


class Root:
    """memory object"""
    __slots__ = ("k",)
    _t = {}

    def __new__(cls, *k):
        r = cls._t.get(k)
        if r is None:
            r = object.__new__(cls)
            r.k = k
            cls._t[k] = r
        return r

    def __repr__(self):
        return "R" + repr(self.k)


def ref(root, path=()):
    return mk("ref", root, path)


class Event:
    __slots__ = ("name", "args", "pcs", "span", "loop", "fn", "mem", "ret", "stack", "targs", "vals", "uid")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def pc(self):
        """condition under which the event happens (conjunction along the call stack)"""
        r = TRUE
        for p in reversed(self.pcs):
            r = b_and(p, r)
        return r

    def __repr__(self):
        return "Event(%s, %s)" % (short(self.name), ", ".join(show(v, 5) for v in self.vals))


CHAIN = Root("S", "chain")
CHAIN0 = mk("chain0")


class Abort(Exception):
    pass


class Unsupported(Exception):
    pass


# generic library functions modelled directly: matched on the declared path
from . import builtins as B  # noqa: E402


class Program:
    def __init__(self, paths):
        self.fns, self.types, self.consts, self.dyn = {}, {}, {}, {}
        self.roots = {}
        for p in paths:
            with open(p) as f:
                d = json.load(f)
            for k, v in d["fns"].items():
                v["key"] = k
                v["crate"] = d["crate"]
                if k not in self.fns or v["local"]:
                    self.fns[k] = v
            for k, v in d["types"].items():
                if k not in self.types or v.get("local"):
                    self.types[k] = v
            for k, v in d["consts"].items():
                self.consts[k] = v
            for k, v in d["dyn"].items():
                for x in v:
                    for m, key in x["methods"].items():
                        self.dyn.setdefault((m, x["ty"]), key)
            self.roots[d["crate"]] = [r[0] for r in d["roots"]]
        self.by_impl = {}
        for k, f in self.fns.items():
            m = re.match(r"^<(.+) as ([\w:]+)(?:<.*>)?>::(\w+)$", f["path"])
            if m:
                self.by_impl[(m.group(2) + "::" + m.group(3), m.group(1))] = k
        self._prep = {}
        self._byname = {}
        for k in self.fns:
            self._byname.setdefault(k.split("<")[0] if not k.startswith("<") else k, k)

    def find(self, suffix, all=False):
        """functions whose path ends with `suffix`"""
        r = [k for k, f in self.fns.items() if f["local"] and (f["path"] == suffix or f["path"].endswith("::" + suffix))]
        if all:
            return r
        if len(r) == 1:
            return r[0]
        return None

    def prep(self, key):
        """CFG facts: reverse postorder, back edges, natural loops, successors"""
        r = self._prep.get(key)
        if r is not None:
            return r
        f = self.fns[key]
        bl = f["blocks"]
        succ = {}
        for i, b in enumerate(bl):
            if b is None:
                succ[i] = []
                continue
            t = b[1]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[3]]
            else:
                s = []
            succ[i] = [x for x in s if bl[x] is not None]
        order, state, back = [], {}, set()
        st = [(0, iter(succ[0]))]
        state[0] = 1
        while st:
            n, it = st[-1]
            for m in it:
                if state.get(m, 0) == 0:
                    state[m] = 1
                    st.append((m, iter(succ[m])))
                    break
                elif state[m] == 1:
                    back.add((n, m))
            else:
                state[n] = 2
                order.append(n)
                st.pop()
        order.reverse()
        idx = {n: i for i, n in enumerate(order)}
        preds = {}
        for n in order:
            for m in succ[n]:
                preds.setdefault(m, []).append(n)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            wk = [n]
            while wk:
                x = wk.pop()
                if x not in body:
                    body.add(x)
                    wk.extend(p for p in preds.get(x, []) if p in idx)
        r = dict(succ=succ, order=order, idx=idx, back=back, loops=loops, preds=preds)
        self._prep[key] = r
        return r


class State:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return State(dict(self.m))


class Run:
    def __init__(self, prog, opaque=(), maxdepth=80, opaque_ext=(), on_call=None, record=()):
        self.p = prog
        self.opaque = opaque if callable(opaque) else (lambda k, s=tuple(opaque): any(k.endswith(x) for x in s))
        self.maxdepth = maxdepth
        self.frame_n = 0
        self.events = []
        self.loops = {}
        self.loop_stack = []
        self.call_stack = []
        self.occ = {}
        self.inlined = set()
        self.unmodelled = {}
        self.nblocks = 0
        self.ncalls = 0
        self.accounts = {}   # account term -> index
        self.acct_fields = {}
        self.record = set(record)  # local fns whose calls are recorded as observations (and still inlined)
        self.obs = []
        self.heap = 0
        self.deadline = None
        self.acct_name, self.acct_type, self.acct_ctor, self.loads = {}, {}, {}, {}
        self.ctx_new = None
        self.refsyms = set()
        self.pc_stack = []
        self.unroll_stack = []

    # ------------------------------------------------------------------ helpers for the library models
    def account(self, k):
        n = self.acct_name.get(k)
        return mk("acct", n[0] if n else "#%s" % k)

    def temp2(self, st, v):
        self.heap += 1
        r = Root("H", self.heap)
        st = st.copy()
        st.m[r] = v
        return ref(r), st

    def cref(self, v):
        return ref(Root("C", v))

    def temp(self, st, v):
        return self.cref(v)

    def chain(self, st):
        return st.m.get(CHAIN, CHAIN0)

    def bump(self, st, ev, pc):
        st.m[CHAIN] = mk("chain", self.chain(st), ev)

    def event(self, name, vals, st, pc, span, caller, ret=None, args=None):
        sv = tuple(self.snap(v, st) for v in vals)
        e = Event(name=name, args=tuple(args if args is not None else vals), vals=sv, pcs=tuple(self.pc_stack) + (pc,), span=span, fn=caller, ret=ret, loop=(),
                  stack=tuple(self.call_stack), targs=())
        self.events.append(e)
        return e

    def is_refsym(self, v):
        return v in self.refsyms

    def loader_type(self, targs, c):
        return targs[0] if targs else None

    # ------------------------------------------------------------------ memory
    def root_init(self, root):
        k = root.k
        if k[0] == "P":
            t = k[1]
            if t.op == "addr":
                return t.a[0]
            if t.op == "fld" and t.a[1] == "key" :
                return mk("key", t.a[0])
            if t.op == "fld" and t.a[1] == "owner":
                return mk("owner", t.a[0])
            return mk("deref", t)
        if k[0] == "D":
            return mk("data", k[1])
        if k[0] == "C":
            return k[1]
        if k[0] == "S":
            return CHAIN0
        return UNDEF

    def read_root(self, st, root):
        v = st.m.get(root)
        if v is None:
            k = root.k
            if k[0] == "P" and k[1].op == "fld" and k[1].a[1] == "owner" and self.chain(st) is not CHAIN0:
                return mk("owner", k[1].a[0], self.chain(st))     # a called program may have changed it
            v = self.root_init(root)
        return v

    def project(self, v, path):
        for e in path:
            v = self.step(v, e)
        return v

    def step(self, v, e):
        k = e[0]
        if k == ".":
            return fld(v, e[1])
        if k == "v":
            return as_var(v, e[1], e[2])
        if k == "i":
            if v.op == "accslice" and e[1].op == "int":
                return self.account(v.a[0] + e[1].a[0])
            return sel(v, e[1])
        if k == "box":
            return v
        if k == "sub":
            if v.op == "arr":
                hi = len(v.a) - e[2] if e[3] else e[2]
                return mk("arr", *v.a[e[1]:hi])
            return mk("slice", v, I(e[1]), I(e[2]), e[3])
        if k == "rng":
            if v.op == "arr" and e[1].op == "int" and (e[2] is None or e[2].op == "int"):
                return mk("arr", *v.a[e[1].a[0]: (e[2].a[0] if e[2] is not None else None)])
            return mk("slice", v, e[1], e[2] if e[2] is not None else UNIT, True)
        return mk("proj", v, str(e))

    def write_path(self, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        if k == ".":
            return mk_upd(v, e[1], self.write_path(fld(v, e[1]), path[1:], new))
        if k == "v":
            inner = self.write_path(as_var(v, e[1], e[2]), path[1:], new)
            return inner
        if k == "i":
            return store(v, e[1], self.write_path(sel(v, e[1]), path[1:], new))
        if k == "box":
            return self.write_path(v, path[1:], new)
        return mk("wr", v, str(e), new)

    def read_ref(self, st, r, pc=None):
        """value behind a reference term"""
        if r.op == "ite":
            return lift(r, lambda x: self.read_ref(st, x))
        if r.op == "ref":
            return self.project(self.read_root(st, r.a[0]), r.a[1])
        if r is UNDEF:
            return r
        return self.project(self.read_root(st, Root("P", r)), ())

    def write_ref(self, st, r, val, pc):
        ls = [r] if r.op != "ite" else leaves(r)
        for l in ls:
            if l is UNDEF:
                continue
            if l.op == "ref":
                root, path = l.a
            else:
                root, path = Root("P", l), ()
            old = self.read_root(st, root)
            if len(ls) == 1:
                st.m[root] = self.write_path(old, path, val)
            else:
                cur = self.project(old, path)
                st.m[root] = self.write_path(old, path, ite(leaf_cond(r, l), val, cur))

    def add_path(self, r, e):
        if r.op == "ite":
            return lift(r, lambda x: self.add_path(x, e))
        if r is UNDEF:
            return r
        if r.op == "ref":
            if e[0] == "box":
                return r
            return ref(r.a[0], r.a[1] + (e,))
        return ref(Root("P", r), (e,))

    def place_ref(self, fr, st, pl, pc):
        """reference term for a MIR place"""
        cur = ref(Root("L", fr, pl[0]))
        elems = pl[1:-1]
        n = 0
        while n < len(elems):
            e = elems[n]
            k = e[0]
            if k == "*":
                cur = self.rd(st, cur, pc)
                if cur.op not in ("ref", "ite", "undef"):
                    cur = ref(Root("P", cur))
            elif k == "boxderef":
                pass
            elif k == ".":
                # Box<T>.0 (Unique) . pointer (NonNull): transparent
                if e[2].startswith(("core::ptr::unique::Unique<", "core::ptr::Unique<", "alloc::boxed::BoxRaw<")):
                    pass
                elif e[2].startswith("core::ptr::non_null::NonNull<") and n > 0 and "nique" in str(elems[n - 1][-1]):
                    pass
                else:
                    cur = self.add_path(cur, (".", e[1]))
            elif k == "v":
                cur = self.add_path(cur, ("v", e[1], e[2]))
            elif k == "i":
                i = self.rd(st, ref(Root("L", fr, e[1])), pc)
                cur = self.add_path(cur, ("i", i))
            elif k == "c":
                if e[2]:
                    v = self.rd(st, cur, pc)
                    ln = self.length(v)
                    cur = self.add_path(cur, ("i", mk_sub(ln, I(e[1]))))
                else:
                    cur = self.add_path(cur, ("i", I(e[1])))
            elif k == "sub":
                cur = self.add_path(cur, ("sub", e[1], e[2], e[3]))
            else:
                cur = self.add_path(cur, ("?", str(e)))
            n += 1
        return cur

    def length(self, v):
        if v.op == "ite":
            return lift(v, self.length)
        if v.op == "arr":
            return I(len(v.a))
        if v.op == "repeat":
            return I(v.a[1])
        if v.op == "store":
            return self.length(v.a[0])
        if v.op == "slice":
            if v.a[3] and v.a[2] is UNIT:
                return mk_sub(self.length(v.a[0]), v.a[1])
        if v is UNDEF:
            return v
        n = self.known_len.get(v)
        if n is not None:
            return I(n)
        return mk("len", v)

    known_len = {}

    def rd(self, st, r, pc):
        v = self.read_ref(st, r)
        if v.op == "ite" and pc is not None:
            v = constrain(v, pc)
        return v

    # ------------------------------------------------------------------ operands
    def const(self, c):
        k = c[0]
        if k == "int":
            return I(c[1])
        if k == "named":
            v = self.const(c[2])
            return v
        if k == "str":
            return mk("str", c[1])
        if k == "bytes":
            return ref(Root("C", mk("arr", *[I(x) for x in c[1]])))
        if k == "fn":
            return mk("fn", c[1])
        if k == "ref":
            return ref(Root("C", self.const(c[1])))
        if k == "static":
            return ref(Root("C", mk("static", c[1])))
        if k == "zst":
            t = self.p.types.get(c[1], {})
            if t.get("k") == "closure":
                return mk("closure", c[1], "", ())
            if t.get("k") == "tuple":
                return UNIT
            if t.get("k") == "adt":
                vs = t.get("variants", [])
                if len(vs) == 1 and not vs[0]["fields"]:
                    return adt(c[1], vs[0]["name"], 0, ())
            return mk("zst", c[1])
        if k == "agg":
            t = self.p.types.get(c[1], {})
            fs = [self.const(x) for x in c[3]]
            if c[1].startswith("ruint::Uint<") and len(fs) == 1 and fs[0].op == "arr" and all(is_int(x) for x in fs[0].a):
                return I(sum(x.a[0] << (64 * i) for i, x in enumerate(fs[0].a)))
            if t.get("k") == "array":
                return mk("arr", *fs)
            if t.get("k") == "tuple":
                return adt("()", "", 0, [(str(i), x) for i, x in enumerate(fs)])
            vn, d, names = c[2]
            return adt(c[1], vn, d, list(zip(names, fs)))
        return mk("opq", c[1] if len(c) > 1 and isinstance(c[1], str) else "?")

    def operand(self, fr, st, o, pc):
        k = o[0]
        if k == "k":
            return self.const(o[1])
        r = self.place_ref(fr, st, o[1], pc)
        v = self.rd(st, r, pc)
        if o[1][-1] == "bool" and v.op not in ("ite", "int", "undef"):
            v = as_bool(v)
        return v

    def bits(self, ty):
        t = self.p.types.get(ty, {})
        if t.get("k") in ("int", "uint"):
            return t["k"] == "int", t["bits"]
        if t.get("k") == "bool":
            return False, 1
        if t.get("k") == "char":
            return False, 32
        return None

    def rvalue(self, fr, st, r, pc, key):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1], pc)
        if k == "ref":
            return self.place_ref(fr, st, r[2], pc)
        if k == "reborrow":
            return self.rd(st, self.place_ref(fr, st, r[2], pc), pc)
        if k == "bin":
            a = self.operand(fr, st, r[2], pc)
            b = self.operand(fr, st, r[3], pc)
            return self.binop(r[1], a, b, r[4])
        if k == "un":
            a = self.operand(fr, st, r[2], pc)
            if r[1] == "Not":
                if r[3] == "bool":
                    return b_not(as_bool(a))
                return mk("bitnot", r[3], a)
            if r[1] == "Neg":
                return mk_scale(a, -1)
            if r[1] == "PtrMetadata":
                v = self.read_ref(st, a)
                return self.length(v)
            return mk("un", r[1], a)
        if k == "cast":
            return self.cast(fr, st, r, pc)
        if k == "discr":
            v = self.rd(st, self.place_ref(fr, st, r[1], pc), pc)
            return discr_of(v, self.two(r[1][-1]))
        if k == "adt":
            ops = [self.operand(fr, st, o, pc) for o in r[5]]
            ty, vn, d, names = r[1], r[2], r[3], r[4]
            if vn == "Err" and ty.startswith("core::result::Result<"):
                ops = [ERRTOK]
            if ty.startswith("core::result::Result<"):
                ty = "Result"
            elif ty.startswith("core::option::Option<"):
                ty = "Option"
            elif ty.startswith("core::ops::control_flow::ControlFlow<"):
                ty = "ControlFlow"
                if vn == "Break":
                    pass
            return adt(ty, vn, d, list(zip(names, ops)))
        if k == "tuple":
            ops = [self.operand(fr, st, o, pc) for o in r[1]]
            if not ops:
                return UNIT
            return adt("()", "", 0, [(str(i), x) for i, x in enumerate(ops)])
        if k == "array":
            return mk("arr", *[self.operand(fr, st, o, pc) for o in r[2]])
        if k == "repeat":
            v = self.operand(fr, st, r[1], pc)
            n = r[2] if r[2] is not None else 0
            if n <= 64:
                return mk("arr", *([v] * n))
            return mk("repeat", v, n)
        if k == "closure":
            ops = tuple(self.operand(fr, st, o, pc) for o in r[3])
            return mk("closure", r[1], r[2], ops)
        if k == "rawptr":
            ops = [self.operand(fr, st, o, pc) for o in r[1]]
            return ops[0] if ops else UNDEF
        return mk("opq", "rv:%s" % k)

    def two(self, ty):
        t = self.p.types.get(ty)
        if ty.startswith("core::option::Option<"):
            return (("None", 0), ("Some", 1))
        if ty.startswith("core::result::Result<"):
            return (("Ok", 0), ("Err", 1))
        if not t or t.get("k") != "adt" or t.get("kind") != "enum" or len(t["variants"]) != 2:
            return None
        v = t["variants"]
        return ((v[0]["name"], v[0]["discr"]), (v[1]["name"], v[1]["discr"]))

    def binop(self, op, a, b, ty):
        sb = self.bits(ty)
        signed = bool(sb and sb[0])
        checked = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if base == "Add":
            v = mk_add(a, b)
        elif base == "Sub":
            v = mk_sub(a, b)
        elif base == "Mul":
            v = mk_mul(a, b)
        elif base == "Div":
            v = mk_div(a, b)
        elif base == "Rem":
            v = mk_rem(a, b)
        elif base == "Shl":
            v = mk_shl(a, b)
        elif base == "Shr":
            v = mk_shr(a, b)
        elif base in ("BitAnd", "BitOr", "BitXor"):
            if ty == "bool":
                a, b = as_bool(a), as_bool(b)
                v = b_and(a, b) if base == "BitAnd" else b_or(a, b) if base == "BitOr" else ite(a, b_not(b), b)
            else:
                v = mk_bit(base[3:].lower(), a, b)
        elif base in ("Eq", "Ne"):
            if ty == "bool":
                a, b = as_bool(a), as_bool(b)
                v = ite(a, b, b_not(b))
            else:
                v = eq(a, b)
            if base == "Ne":
                v = b_not(v)
        elif base == "Lt":
            v = lt(a, b, signed)
        elif base == "Le":
            v = le(a, b, signed)
        elif base == "Gt":
            v = lt(b, a, signed)
        elif base == "Ge":
            v = le(b, a, signed)
        elif base == "Offset":
            v = mk("off", a, b)
        else:
            v = mk("bin", base, a, b)
        if checked:
            return adt("()", "", 0, [("0", v), ("1", FALSE)])
        return v

    def cast(self, fr, st, r, pc):
        kind, o, f, t = r[1], r[2], r[3], r[4]
        v = self.operand(fr, st, o, pc)
        if kind.startswith("IntToInt"):
            fb, tb = self.bits(f), self.bits(t)
            if fb is None:
                ft = self.p.types.get(f, {})
                if ft.get("kind") == "enum":
                    return discr_of(v, self.two(f))
                return v
            if tb is None:
                return v
            w = B.int_cast(v, fb, tb)
            if w is not v and w.op in ("trunc", "ite"):
                # nothing is lost where the path was taken only for values that fit
                def whole(l):
                    if l.op == "trunc" and l.a[1] == tb[1] and b_and(pc, lt(I((1 << tb[1]) - 1), l.a[0])) is FALSE:
                        return l.a[0]
                    return l
                w = lift(w, whole)
            return w
        if kind.startswith("Transmute") or kind.startswith("PtrToPtr") or kind.startswith("BoxDeref"):
            # pointer obtained from a Box: reference to its contents
            if (kind.startswith("Transmute") or kind.startswith("BoxDeref")) and o[0] in ("cp", "mv"):
                ft = str(f)
                if ft.startswith("alloc::boxed::BoxRaw<"):
                    return self.place_ref(fr, st, o[1], pc)
                if ft.startswith("core::ptr::non_null::NonNull<") and len(o[1]) > 2 and any(
                        isinstance(e, list) and len(e) > 2 and "nique" in str(e[2]) for e in o[1][1:-1]):
                    return self.place_ref(fr, st, o[1], pc)
                if ft.startswith("alloc::boxed::Box<"):
                    return self.place_ref(fr, st, o[1], pc)
                tt = self.p.types.get(t, {})
                if self.bits(f) and tt.get("kind") == "enum":
                    return mk("frombits", t, v)
            return v
        if kind.startswith("PointerCoercion"):
            m = re.match(r"^&(?:mut )?\[.*; (\d+)\]$", f)
            if m and v.op == "ref":
                tv = self.read_ref(st, v)
                if tv.op not in ("arr", "repeat", "store", "ite"):
                    self.known_len[tv] = int(m.group(1))
            return v
        return v

    # ------------------------------------------------------------------ control flow
    def merge(self, items, fr=None):
        """items: [(pc, State)] -> (pc, State)"""
        items = [x for x in items if x[0] is not FALSE]
        if not items:
            return None
        if fr is not None and len(items) > 1:
            # memory of a path that returns Err is irrelevant: a failed instruction is rolled back
            r0 = Root("L", fr, 0)
            good, bad = [], []
            for x in items:
                v = x[1].m.get(r0)
                (bad if v is B.ERR else good).append(x)
            if bad and good:
                pc, st = self.merge(good)
                st = st.copy()
                pe = FALSE
                for x in bad:
                    pe = b_or(pe, x[0])
                tot = b_or(pc, pe)
                c = constrain(pc, tot)
                v = st.m.get(r0)
                if v is not None:
                    st.m[r0] = ite(c, v, B.ERR)
                return tot, st
        pc, st = items[0]
        st = st.copy() if len(items) > 1 else st
        for pc2, st2 in items[1:]:
            tot = b_or(pc, pc2)
            c = constrain(pc, tot)
            if c is TRUE:
                c = TRUE
            m = st.m
            m2 = st2.m
            for r in set(m) | set(m2):
                a, b = m.get(r), m2.get(r)
                if a is b:
                    continue
                if a is None:
                    a = self.root_init(r)
                if b is None:
                    b = self.root_init(r)
                m[r] = ite(c, a, b)
            pc = tot
        return pc, st

    def run_fn(self, key, args, st, pc):
        """-> (ret, st, pc) of normal return; pc FALSE when it never returns"""
        f = self.p.fns[key]
        if len(self.call_stack) > self.maxdepth or key in self.call_stack[-40:]:
            raise Unsupported("recursion " + key)
        self.call_stack.append(key)
        self.inlined.add(key)
        self.frame_n += 1
        fr = self.frame_n
        st = st.copy()
        n = f["nargs"]
        if f["spread"] is not None and len(args) != n:
            # rust-call: trailing tuple is spread
            pass
        for i, a in enumerate(args[:n]):
            st.m[Root("L", fr, i + 1)] = a
        pr = self.p.prep(key)
        # conditions inside a function are kept relative to its call
        depth = len(self.pc_stack)
        self.pc_stack.append(pc)
        try:
            out = self.region(key, fr, pr, set(pr["order"]), 0, [(TRUE, st)])
        finally:
            del self.pc_stack[depth:]
        self.call_stack.pop()
        rets = out.get("ret", [])
        if not rets:
            return UNDEF, st, FALSE
        pc2, st2 = self.merge(rets, fr)
        pc2 = b_and(pc, pc2)
        ret = self.read_root(st2, Root("L", fr, 0))
        if f["locals"][0][0] == "()" or ret is UNDEF:
            ret = UNIT if f["locals"][0][0] == "()" else ret
        m = {r: v for r, v in st2.m.items() if not (r.k[0] == "L" and r.k[1] == fr)}
        # values captured by reference to this frame cannot outlive it
        return ret, State(m), pc2

    def region(self, key, fr, pr, blocks, entry, incoming):
        """Evaluate the blocks of a region (back edges of entry cut). Returns {'ret':[(pc,st)], target_block: [(pc,st)]}"""
        pend = {entry: list(incoming)}
        out = {}
        order = [b for b in pr["order"] if b in blocks]
        done = set()
        f = self.p.fns[key]
        for b in order:
            if b in done or b not in pend:
                continue
            inc = pend.pop(b)
            mg = self.merge(inc, fr)
            if mg is None:
                continue
            if b in pr["loops"] and not (b == entry and self.loop_ctx == (fr, b)):
                body = pr["loops"][b] & blocks
                exits = self.loop(key, fr, pr, body, b, mg)
                done |= body
                for tgt, its in exits.items():
                    if tgt == "ret":
                        out.setdefault("ret", []).extend(its)
                    elif tgt in blocks and tgt != entry:
                        pend.setdefault(tgt, []).extend(its)
                    else:
                        out.setdefault(tgt, []).extend(its)
                continue
            for tgt, pc, st in self.block(key, fr, f, b, *mg):
                if pc is FALSE:
                    continue
                if tgt == "ret":
                    out.setdefault("ret", []).append((pc, st))
                elif tgt in blocks and tgt != entry:
                    pend.setdefault(tgt, []).append((pc, st))
                else:
                    out.setdefault(tgt, []).append((pc, st))
        return out

    loop_ctx = None
    unroll_budget = 30000
    max_unroll = 80

    def unroll(self, key, fr, pr, body, h, mg):
        """a loop whose exit test folds to a constant on every round is evaluated round by round"""
        marks = (len(self.events), len(self.obs), dict(self.occ), self.heap, self.frame_n, dict(getattr(self, "loops_info", {})))
        saved = self.loop_ctx
        size0 = nterms()
        exits = {}
        cur = [mg]
        self.unroll_stack.append([fr, body, False])
        try:
            for it in range(self.max_unroll):
                self.loop_ctx = (fr, h)
                self.unroll_stack[-1][2] = False
                out = self.region(key, fr, pr, body, h, cur)
                self.loop_ctx = saved
                backs = out.pop(h, [])
                for k, v in out.items():
                    exits.setdefault(k, []).extend(v)
                bm = self.merge(backs, fr) if backs else None
                if bm is None:
                    return exits
                if not self.unroll_stack[-1][2] or nterms() - size0 > self.unroll_budget:
                    break
                cur = [bm]
        finally:
            self.unroll_stack.pop()
            self.loop_ctx = saved
        del self.events[marks[0]:]
        del self.obs[marks[1]:]
        self.occ, self.heap, self.frame_n, self.loops_info = marks[2], marks[3], marks[4], marks[5]
        return None

    def loop(self, key, fr, pr, body, h, mg):
        pc0, st0 = mg
        if self.unroll_budget:
            r = self.unroll(key, fr, pr, body, h, mg)
            if r is not None:
                self.nunrolled = getattr(self, "nunrolled", 0) + 1
                return r
        self.loop_n = getattr(self, "loop_n", 0) + 1
        ln = self.loop_n
        mus = {}   # (root, path) -> mu term
        saved_ctx = self.loop_ctx
        ev_mark, obs_mark = len(self.events), len(self.obs)
        occ_mark = dict(self.occ)
        for it in range(12):
            del self.events[ev_mark:]
            del self.obs[obs_mark:]
            self.occ = dict(occ_mark)
            st = st0.copy()
            for (root, path), mu in mus.items():
                st.m[root] = self.write_path(self.read_root(st, root), path, mu)
            self.loop_ctx = (fr, h)
            self.loop_stack.append(ln)
            fr_save = self.frame_n
            out = self.region(key, fr, pr, body, h, [(pc0, st)])
            self.loop_stack.pop()
            self.loop_ctx = saved_ctx
            backs = out.pop(h, [])
            if not backs:
                return out
            bm = self.merge(backs)
            if bm is None:
                return out
            bpc, bst = bm
            # which locations changed?
            changed = []
            for root in list(bst.m):
                if root.k[0] == "L" and root.k[1] != fr and root.k[1] > fr_save:
                    continue
                a = self.read_root(st, root)
                b = bst.m[root]
                if a is b:
                    continue
                if root not in st.m and root.k[0] == "L":
                    continue  # first defined inside the body
                if a is UNDEF:
                    continue
                self.diff(root, (), a, b, changed)
            new = False
            for root, path in changed:
                # an enclosing mu already covers it
                if any(r is root and path[: len(p)] == p for r, p in mus):
                    continue
                for k2 in [k2 for k2 in mus if k2[0] is root and k2[1][: len(path)] == path]:
                    del mus[k2]
                mus[(root, path)] = mk("mu", ln, len(mus) + 1000 * it)
                new = True
            if not new:
                break
        else:
            # did not converge: havoc roots whole
            pass
        self.loops_info = getattr(self, "loops_info", {})
        info = []
        for (root, path), mu in mus.items():
            init = self.project(self.read_root(st0, root), path)
            nxt = self.project(self.read_root(bst, root), path)
            if nxt.op == "ite":
                nxt = constrain(nxt, bpc)
            info.append((mu, init, nxt))
        # the condition to go round again, relative to the entry condition
        again = constrain(bpc, pc0)
        sub = self.canon_loop(info, again)
        if sub:
            for tgt in list(out):
                out[tgt] = [(subst(p, sub), State({r: subst(v, sub) for r, v in s.m.items()})) for p, s in out[tgt]]
            for e in self.events[ev_mark:]:
                self.subst_event(e, sub)
            for e in self.obs[obs_mark:]:
                self.subst_event(e, sub)
            info = [(sub.get(m, m), i, subst(n, sub)) for m, i, n in info]
            again = subst(again, sub)
        lid = info[0][0].a[0] if info else ln
        for e in self.events[ev_mark:]:
            e.loop = (lid,) + tuple(e.loop or ())
        for e in self.obs[obs_mark:]:
            e.loop = (lid,) + tuple(e.loop or ())
        self.loops_info[lid] = dict(mus=info, again=again, fn=key, head=h, entry_pc=pc0)
        return out

    def subst_event(self, e, sub):
        e.pcs = tuple(subst(x, sub) for x in e.pcs)
        e.args = tuple(subst(x, sub) for x in e.args)
        e.vals = tuple(subst(x, sub) for x in e.vals)
        if e.ret is not None:
            e.ret = subst(e.ret, sub)
        if e.mem:
            e.mem = {k: subst(v, sub) for k, v in e.mem.items()}

    def canon_loop(self, info, again):
        """names mu-terms by the structure of the loop, so equal loops get equal terms"""
        if not info:
            return {}
        hole = {m: mk("muhole") for m, _, _ in info}
        keyed = []
        for m, i, n in info:
            n2 = subst(n, {**hole, m: mk("muself")})
            keyed.append((i.id, n2.id, m, i, n))
        keyed.sort(key=lambda x: (x[0], x[1]))
        place = {k[2]: mk("muvar", j) for j, k in enumerate(keyed)}
        sig = mk("loopsig", tuple((k[3], subst(k[4], place)) for k in keyed), subst(again, place))
        return {k[2]: mk("mu", "L%d" % sig.id, j) for j, k in enumerate(keyed)}

    def diff(self, root, path, a, b, out):
        if a is b:
            return
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and a.a[3]:
            d = dict(b.a[3])
            for n, v in a.a[3]:
                self.diff(root, path + ((".", n),), v, d.get(n, UNDEF), out)
            return
        if a.op == "upd" or b.op == "upd":
            ba, ua = upd_split(a)
            bb, ub = upd_split(b)
            if ba is bb:
                for n in sorted(set(ua) | set(ub)):
                    self.diff(root, path + ((".", n),), ua[n] if n in ua else fld(ba, n),
                              ub[n] if n in ub else fld(bb, n), out)
                return
        if b.op == "ite" and a.op in ("adt", "upd") and path == ():
            pass
        out.append((root, path))

    # ------------------------------------------------------------------ blocks
    def block(self, key, fr, f, b, pc, st):
        self.nblocks += 1
        if self.deadline and self.nblocks % 256 == 0:
            import time
            if time.time() > self.deadline:
                raise Unsupported("analysis budget exceeded in " + key)
        bl = f["blocks"][b]
        st = st.copy()
        for s in bl[0]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], pc, key)
                self.assign(fr, st, s[1], v, pc)
            elif s[0] == "setdiscr":
                r = self.place_ref(fr, st, s[1], pc)
                old = self.rd(st, r, pc)
                ty = s[1][-1]
                self.write_ref(st, r, adt(ty, s[2], s[3], old.a[3] if old.op == "adt" else ()), pc)
        t = bl[1]
        k = t[0]
        if k == "goto":
            return [(t[1], pc, st)]
        if k == "return":
            return [("ret", pc, st)]
        if k == "drop":
            return [(t[2], pc, st)]
        if k == "assert":
            return [(t[3], self.assert_(fr, st, t, pc), st)]
        if k == "switch":
            v = self.operand(fr, st, t[1], pc)
            if self.unroll_stack and v.op == "int" and self.unroll_stack[-1][0] == fr:
                us = self.unroll_stack[-1]
                tg = [x[1] for x in t[3]] + [t[4]]
                if b in us[1] and any(x not in us[1] for x in tg if f["blocks"][x] is not None):
                    us[2] = True
            outs = []
            rest = TRUE
            if t[2] == "bool":
                c = as_bool(v)
                if c is UNDEF:
                    return []
                for val, tgt in t[3]:
                    cc = c if val else b_not(c)
                    outs.append((tgt, b_and(pc, b_and(rest, cc)) if rest is not TRUE else b_and(pc, cc), st))
                    rest = b_and(rest, b_not(cc))
                outs.append((t[4], b_and(pc, rest), st))
                return outs
            if v is UNDEF:
                return []
            signed = t[2] in ("i8", "i16", "i32", "i64", "i128", "isize")
            for val, tgt in t[3]:
                if signed and val >= 1 << 63:
                    val -= 1 << {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[t[2]]
                cc = eq(v, I(val))
                if cc is UNDEF:
                    cc = FALSE
                outs.append((tgt, b_and(pc, b_and(rest, cc)), st))
                rest = b_and(rest, b_not(cc))
            if f["blocks"][t[4]] is not None and not (f["blocks"][t[4]][1][0] == "unreachable" and not f["blocks"][t[4]][0]):
                outs.append((t[4], b_and(pc, rest), st))
            return outs
        if k == "call":
            return self.call(key, fr, f, b, t, pc, st)
        return []

    def assert_(self, fr, st, t, pc):
        if t[4] in ("BoundsCheck", "DivisionByZero", "RemainderByZero"):
            c = self.operand(fr, st, t[1], pc)
            c = as_bool(c)
            if c is UNDEF:
                return pc
            if not t[2]:
                c = b_not(c)
            if c is FALSE:
                return FALSE
            # array bounds / zero divisors abort the instruction; not kept as facts
            return pc
        return pc

    def assign(self, fr, st, pl, v, pc):
        if len(pl) == 2:
            st.m[Root("L", fr, pl[0])] = v
            return
        r = self.place_ref(fr, st, pl, pc)
        self.write_ref(st, r, v, pc)

    # ------------------------------------------------------------------ calls
    def call(self, key, fr, f, b, t, pc, st):
        self.ncalls += 1
        c, args, dest, tgt, span = t[1], t[2], t[3], t[4], t[5]
        vals = [self.operand(fr, st, a, pc) for a in args]
        rty = dest[-1]
        if tgt is None and ("panic" in str(c.get("decl", "")) or "unwrap_failed" in str(c.get("decl", ""))
                            or "expect_failed" in str(c.get("decl", ""))):
            return []
        ret, st2, pc2 = self.do_call(c, vals, st, pc, rty, span, key)
        if tgt is None or pc2 is FALSE:
            return []
        if rty == "bool" and ret.op not in ("ite", "int", "undef"):
            ret = as_bool(ret)
        if st2 is st:
            st2 = st.copy()
        self.assign(fr, st2, dest, ret, pc2)
        return [(tgt, pc2, st2)]

    def do_call(self, c, vals, st, pc, rty, span, caller):
        if "indirect" in c:
            fv = UNDEF
            return self.opaque_call("indirect", vals, st, pc, rty, span, caller, c)
        decl = c.get("decl", "")
        path = c.get("path", decl)
        ck = c.get("key")
        if c.get("ctor"):
            return self.opaque_call(decl, vals, st, pc, rty, span, caller, c)
        # closures and fn items called through the Fn traits
        if decl in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
                    "core::ops::function::Fn::call"):
            r = self.call_fnlike(c, vals, st, pc, rty, span, caller)
            if r is not None:
                return r
        if c.get("virtual"):
            return self.virtual(c, decl, vals, st, pc, rty, span, caller)
        r = B.builtin(self, decl, path, c, vals, st, pc, rty, span, caller)
        if r is not None:
            return r
        if ck in self.p.fns and self.p.fns[ck]["local"] and self.boundary(self.p.fns[ck]["path"]):
            return self.bound_call(ck, vals, st, pc, rty, span, caller)
        if ck in self.p.fns and not self.opaque(self.p.fns[ck]["path"]):
            fn = self.p.fns[ck]
            if fn["local"] or B.inline_extern(path):
                try:
                    return self.inline(ck, vals, st, pc, span, caller)
                except Unsupported as e:
                    if "budget" in str(e):
                        raise
                    self.unmodelled[ck] = str(e)
        return self.opaque_call(path, vals, st, pc, rty, span, caller, c)

    def boundary(self, path):
        return False

    def bound_call(self, ck, vals, st, pc, rty, span, caller):
        """a call kept as an uninterpreted application of a function that is checked on its own"""
        path = self.p.fns[ck]["path"]
        sv = tuple(self.snap(v, st) for v in vals)
        ret = mk("call", path, *sv)
        self.obs.append(Event(name=path, args=tuple(vals), vals=sv, pcs=tuple(self.pc_stack) + (pc,), span=span, fn=caller, ret=ret, loop=(),
                              stack=tuple(self.call_stack)))
        if self.is_numeric(path):
            B.NUMERIC.add(path)
        if rty == "bool":
            ret = as_bool(ret)
        return ret, st, pc

    def is_numeric(self, path):
        return True

    def inline(self, ck, vals, st, pc, span, caller):
        fn = self.p.fns[ck]
        if fn["path"] in self.record or any(fn["path"].endswith("::" + x) for x in self.record):
            self.note(fn["path"], vals, st, pc, span, caller)
            ob = self.obs[-1]
            r = self.run_fn(ck, vals, st, pc)
            ob.ret = r[0]
            return r
        depth = len(self.call_stack)
        try:
            return self.run_fn(ck, vals, st, pc)
        except Unsupported:
            del self.call_stack[depth:]
            raise

    def note(self, name, vals, st, pc, span, caller):
        self.obs.append(Event(name=name, args=tuple(vals), vals=tuple(self.snap(v, st) for v in vals), pcs=tuple(self.pc_stack) + (pc,), span=span,
                              fn=caller, loop=()))

    def call_fnlike(self, c, vals, st, pc, rty, span, caller):
        f = vals[0]
        tup = vals[1] if len(vals) > 1 else UNIT
        fv = f
        if fv.op == "ref":
            fv = self.read_ref(st, fv)
            hops = 0
            while fv.op == "ref" and hops < 4:
                f = fv
                fv = self.read_ref(st, fv)
                hops += 1
        if fv.op == "ite":
            return self.split_call(fv, lambda leaf, s, p: self.call_fnval(leaf, None, c, tup, s, p, rty, span, caller), st, pc)
        return self.call_fnval(fv, f if f.op == "ref" else None, c, tup, st, pc, rty, span, caller)

    def call_fnval(self, fv, fref, c, tup, st, pc, rty, span, caller):
        targs = [v for n, v in tup.a[3]] if tup.op == "adt" else []
        if fv.op == "closure" and fv.a[1] in self.p.fns:
            ck = fv.a[1]
            fn = self.p.fns[ck]
            selfty = fn["locals"][1][0] if len(fn["locals"]) > 1 else ""
            if fn["nargs"] == 0:
                a0 = []
            elif selfty.startswith("&"):
                if fref is None:
                    self.heap += 1
                    fref = ref(Root("H", self.heap))
                    st = st.copy()
                    st.m[fref.a[0]] = fv
                a0 = [fref]
            else:
                a0 = [fv]
            return self.inline(ck, a0 + targs, st, pc, span, caller)
        if fv.op == "closure" and not fv.a[1]:
            # closure without captures given as a constant
            for k, fn in self.p.fns.items():
                if len(fn["locals"]) > 1 and fn["locals"][1][0].lstrip("&").replace("mut ", "") == fv.a[0]:
                    return self.inline(k, [fv] + targs, st, pc, span, caller)
        if fv.op == "fn":
            ck = fv.a[0]
            if ck in self.p.fns and not self.opaque(self.p.fns[ck]["path"]) and (
                    self.p.fns[ck]["local"] or B.inline_extern(self.p.fns[ck]["path"])):
                return self.inline(ck, targs, st, pc, span, caller)
            r = B.builtin(self, ck.split("<")[0] if not ck.startswith("<") else ck, ck, {"decl": ck}, targs, st, pc, rty, span, caller)
            if r is not None:
                return r
            # tuple-struct / variant constructors used as functions
            nm = ck.split("<")[0].split("::")[-1]
            if nm in ("Some", "Ok"):
                return adt("Option" if nm == "Some" else "Result", nm, 1 if nm == "Some" else 0, [("0", targs[0])]), st, pc
            return self.opaque_call(ck, targs, st, pc, rty, span, caller, c)
        return None

    def split_call(self, sel_, fn, st, pc):
        """call each alternative under its condition and merge"""
        res = []
        rets = []
        for leaf in leaves(sel_):
            if leaf is UNDEF:
                continue
            p = b_and(pc, leaf_cond(sel_, leaf))
            if p is FALSE:
                continue
            r = fn(leaf, st.copy(), p)
            if r is None:
                return None
            ret, s, p2 = r
            if p2 is FALSE:
                continue
            s = s.copy()
            s.m[Root("RET", 0)] = ret
            res.append((p2, s))
        mg = self.merge(res)
        if mg is None:
            return UNDEF, st, FALSE
        pc2, st2 = mg
        ret = st2.m.pop(Root("RET", 0))
        return ret, st2, pc2

    def concrete_type(self, v):
        if v.op == "adt":
            return v.a[0]
        if v.op == "closure":
            return v.a[0]
        return None

    def virtual(self, c, decl, vals, st, pc, rty, span, caller):
        me = vals[0]
        v = me
        hops = 0
        while v.op in ("ref",) and hops < 5:
            v2 = self.read_ref(st, v)
            if v2.op == "ref" or v2.op in ("adt", "closure", "ite"):
                me = v
                v = v2
                hops += 1
                if v.op != "ref":
                    break
            else:
                v = v2
                break

        def one(leaf, s, p):
            t = self.concrete_type(leaf)
            key = self.p.dyn.get((decl, t)) if t else None
            if key and key in self.p.fns:
                a0 = me
                if v.op == "ite":
                    self.heap += 1
                    a0 = ref(Root("H", self.heap))
                    s = s.copy()
                    s.m[a0.a[0]] = leaf
                return self.inline(key, [a0] + vals[1:], s, p, span, caller)
            return self.opaque_call(decl, vals, s, p, rty, span, caller, c)
        if v.op == "ite":
            return self.split_call(v, one, st, pc)
        return one(v, st, pc)

    def snap(self, v, st, depth=0):
        """value of an argument with references replaced by what they point to"""
        if depth > 6 or not isinstance(v, T):
            return v
        if v.op == "ref":
            if v.a[0].k[0] == "D" and not v.a[1]:
                return mk("dataref", v.a[0].k[1], self.read_ref(st, v))
            return self.snap(self.read_ref(st, v), st, depth + 1)
        if v.op == "ite":
            return lift(v, lambda l: self.snap(l, st, depth + 1))
        if v.op == "fld" and v.a[1] in ("key", "owner") and v.a[0].op == "acct":
            return mk(v.a[1], v.a[0])      # AccountInfo's key and owner are references
        if v.op == "adt":
            return mk("adt", v.a[0], v.a[1], v.a[2], tuple((n, self.snap(x, st, depth + 1)) for n, x in v.a[3]))
        if v.op == "arr" and len(v.a) <= 64:
            return mk("arr", *[self.snap(x, st, depth + 1) for x in v.a])
        if v.op == "closure":
            return mk("closure", v.a[0], v.a[1], tuple(self.snap(x, st, depth + 1) for x in v.a[2]))
        return v

    def opaque_call(self, name, vals, st, pc, rty, span, caller, c):
        sv = tuple(self.snap(v, st) for v in vals)
        ret = mk("call", name, *sv)
        eff = not B.is_pure(name)
        if eff:
            ret = mk("call", name, *sv, self.chain(st))
            self.events.append(Event(name=name, args=tuple(vals), vals=sv, pcs=tuple(self.pc_stack) + (pc,), span=span, fn=caller, ret=ret,
                                     loop=(), stack=tuple(self.call_stack), targs=tuple(c.get("targs", ()))))
        # &mut arguments may be changed
        st2 = st
        if eff:
            st2 = st.copy()
            self.bump(st2, ret, pc)
        if not B.no_havoc(name):
            muts = self.mut_args(c, vals)
            for i in muts:
                if st2 is st:
                    st2 = st.copy()
                self.write_ref(st2, vals[i], mk("out", ret, i), pc)
        if rty == "()":
            ret = UNIT
        if rty == "bool":
            ret = as_bool(ret)
        return ret, st2, pc

    def mut_args(self, c, vals):
        sig = c.get("muts")
        if sig is None:
            return []
        return [i for i in sig if i < len(vals) and vals[i].op in ("ref", "ite")]


_sub_memo = {}


def subst(t, m, memo=None):
    """replace subterms (rebuilding with normalisation)"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        if isinstance(t, Root) and len(t.k) > 1 and isinstance(t.k[1], T):
            return Root(t.k[0], subst(t.k[1], m, memo), *t.k[2:])
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    na = tuple(subst(x, m, memo) for x in t.a)
    if na == t.a:
        r = t
    else:
        r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "ite":
        return ite(as_bool(a[0]) if a[0].op in ("int", "ite") else mk("ite", a[0], TRUE, FALSE), a[1], a[2])
    if op == "lin":
        r = I(a[0])
        for t, k in a[1]:
            r = mk_add(r, mk_scale(t, k))
        return r
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mk_mul(r, x)
        return r
    if op == "div":
        return mk_div(*a)
    if op == "divc":
        return mk_divc(*a)
    if op == "rem":
        return mk_rem(*a)
    if op == "min":
        return mk_min(*a)
    if op == "max":
        return mk_max(*a)
    if op == "eq":
        return eq(*a)
    if op == "lt":
        return lt(*a)
    if op == "fld":
        return fld(*a)
    if op == "as":
        return as_var(a[0], a[1], 0)
    if op == "sel":
        return sel(*a)
    if op == "upd":
        return mk_upd(*a)
    if op in ("and", "or", "xor"):
        return mk_bit(op, *a)
    if op == "shl":
        return mk_shl(*a)
    if op == "shr":
        return mk_shr(*a)
    if op == "is":
        if a[0].op == "adt":
            return TRUE if a[0].a[1] == a[1] else FALSE
    return mk(op, *a)
