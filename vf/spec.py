"""Entry-point summaries and the obligation ledger the property rules are written against."""
import re
import time
from . import engine
from .engine import Program, Run, State, Root, ref, Unsupported
from .terms import *
from . import builtins as B

CRATE = "dynamic_bonding_curve"

# pure numeric functions kept as uninterpreted applications at instruction level; each is decided on its own
# by the numeric rules
PURE = (
    "curve::get_delta_amount_base_unsigned", "curve::get_delta_amount_quote_unsigned",
    "curve::get_delta_amount_base_unsigned_256", "curve::get_delta_amount_quote_unsigned_256",
    "curve::get_next_sqrt_price_from_input", "curve::get_next_sqrt_price_from_output",
    "fee_math::pow", "utils_math::sqrt_u256",
    "PoolFeesConfig::get_fee_on_amount", "PoolFeesConfig::get_included_fee_amount", "PoolFeesConfig::get_excluded_fee_amount",
    "VirtualPool::get_swap_result_from_exact_input", "VirtualPool::get_swap_result_from_partial_input",
    "VirtualPool::get_swap_result_from_exact_output",
    "ConfigParameters::validate", "PoolConfig::get_swap_amount_with_buffer",
    "liquidity_distribution::get_migration_threshold_price", "liquidity_distribution::get_base_token_for_swap",
    "curve::get_initialize_amounts",
)


START = time.time()
EACH_LIMIT = 780   # seconds after which workers are stopped: what they had left to decide is undecided


class Undecided(Exception):
    """the analysis cannot tell: reported as such, neither as a violation nor as a discharged obligation"""


class Missing(Exception):
    """something the rule is anchored to is not in the program"""


class Transfer:
    def __init__(self, ev, t):
        self.ev = ev
        self.program, self.src, self.mint, self.dst, self.auth, _, self.amount, self.decimals = t.a[1:9]
        self.pc = ev.pc
        self.signed = ev.vals[2] if len(ev.vals) > 2 else UNIT

    def __repr__(self):
        return "transfer(%s -> %s by %s: %s)" % (show(self.src), show(self.dst), show(self.auth), show(self.amount, 8))


class Entry:
    def __init__(self, prog, ix, boundary=PURE, deadline=600):
        self.p, self.ix = prog, ix
        key = "%s::__private::__global::%s" % (CRATE, ix)
        if key not in prog.fns:
            raise Missing("instruction " + ix)
        self.key = key
        R = Run(prog)
        R.boundary = lambda p: p.endswith(boundary)
        R.is_numeric = lambda p: not p.endswith("validate")
        R.deadline = time.time() + deadline
        t = time.time()
        self.ret, self.st, self.pc = R.run_fn(
            key, [mk("sym", "program_id"), ref(Root("C", mk("accslice", 0))), mk("sym", "ixdata")], State(), TRUE)
        self.dt = time.time() - t
        self.R = R
        self.ok = b_and(self.pc, b_not(B.is_err(self.ret)))
        self.events = R.events
        self.accts = {}
        for k, (n, ty) in R.acct_name.items():
            self.accts[n] = ty
        self.extra = {k.a[0]: ty for k, ty in R.acct_type.items() if k.op == "acct" and k.a[0] not in self.accts}

    # --- terms
    def acct(self, n):
        if n not in self.accts and n not in self.extra:
            raise Missing("account %s of %s" % (n, self.ix))
        return mk("acct", n)

    def key_of(self, n):
        return mk("key", self.acct(n))

    def pre(self, n, path=None):
        t = mk("data", self.acct(n))
        return get(t, path) if path else t

    def post(self, n, path=None):
        t = self.st.m.get(Root("D", self.acct(n)))
        if t is None:
            t = mk("data", mk("acct", n))
        return get(t, path) if path else t

    def arg(self, n):
        return mk("sym", "ix." + n)

    # --- facts
    def is_signer(self, n):
        ty = self.accts.get(n, "")
        if "signer::Signer<" in ty:
            return TRUE
        return as_bool(fld(self.acct(n), "is_signer"))

    def implied(self, cond, under=None):
        """ok and under imply cond"""
        c = self.ok if under is None else b_and(self.ok, under)
        return b_and(c, b_not(cond)) is FALSE

    def equals(self, t):
        """the terms known equal to t at every successful end"""
        if not hasattr(self, "_eqs"):
            self._eqs = []
            seen = set()
            for s in subterms(self.ok):
                if s.op == "ite" and s.a[0].op == "eq" and s.a[0] not in seen:
                    seen.add(s.a[0])
                    if self.implied(atom_bool(s.a[0])):
                        self._eqs.append(s.a[0].a)
        out = [t]
        for x in out:
            for a, b in self._eqs:
                for p, q in ((a, b), (b, a)):
                    if p is x and q not in out:
                        out.append(q)
        return out

    def differ(self, a, b, under=None):
        """a != b at every successful end"""
        return any(self.implied(b_not(eq(x, y)), under) for x in self.equals(a) for y in self.equals(b))

    def same(self, a, b, under=None):
        if a is b:
            return True
        c = self.ok if under is None else b_and(self.ok, under)
        return same_under(a, b, c)

    def given(self, t, under=None):
        return given(t, self.ok if under is None else b_and(self.ok, under))

    def writes(self, n):
        """leaf fields of the account's data that differ at a successful end -> {path: value}"""
        out = {}
        diff("", self.pre(n), ite(self.ok, self.post(n), self.pre(n)) if self.post(n).op == "ite" else self.post(n), out)
        return {k: v for k, v in out.items() if not self.same(v, get(self.pre(n), k))}

    def written_accounts(self):
        return [r.k[1].a[0] for r in self.st.m if r.k[0] == "D" and r.k[1].op == "acct"]

    # --- effects
    @property
    def transfers(self):
        out = []
        for e in self.events:
            if is_cpi(e) and e.vals:
                for t in instr_leaves(e.vals[0]):
                    if t.op == "call" and t.a[0].endswith("instruction::transfer_checked"):
                        out.append(Transfer(e, t))
        return out

    def cpis(self):
        return [e for e in self.events if is_cpi(e)]

    def emits(self, name=None):
        return [e for e in self.events if e.name == "emit" and (name is None or evname(e.vals[0]) == name)]

    def where(self):
        return "instruction `%s`" % self.ix


def evname(t):
    return t.a[0].split("<")[0].split("::")[-1] if t.op == "adt" else "?"


def is_cpi(e):
    return e.name.endswith(("program::invoke_signed", "program::invoke", "program::invoke_signed_unchecked", "program::invoke_unchecked"))


def instr_leaves(t):
    """the instruction-builder calls an instruction value may come from"""
    out = []
    for l in leaves(t):
        while l.op in ("fld", "as") or (l.op == "chk"):
            l = l.a[1] if l.op == "chk" else l.a[0]
        out.append(l)
    return out


def get(t, path):
    for n in path.split("."):
        t = sel(t, I(int(n))) if n.isdigit() and t.op in ("arr", "repeat", "store") else fld(t, n)
    return t


def diff(path, a, b, out):
    if a is b:
        return
    if b.op == "upd":
        bb, ub = upd_split(b)
        ba, ua = upd_split(a)
        if ba is bb:
            for n in sorted(set(ua) | set(ub)):
                p = path + "." + n if path else n
                diff(p, ua[n] if n in ua else fld(ba, n), ub[n] if n in ub else fld(bb, n), out)
            return
    out[path] = b


class Fn:
    """a function analysed on its own with symbolic parameters"""

    def __init__(self, prog, suffix, args=None, boundary=(), st=None, deadline=300, pc=TRUE):
        ks = prog.find(suffix, all=True)
        if len(ks) != 1:
            raise Undecided("function %s not found (%d candidates)" % (suffix, len(ks)))
        self.key = ks[0]
        self.p = prog
        f = prog.fns[self.key]
        self.f = f
        self.path = f["path"]
        R = Run(prog)
        R.boundary = lambda p: p.endswith(tuple(boundary)) and p != f["path"]
        R.deadline = time.time() + deadline
        self.names = [f["locals"][i + 1][1] if len(f["locals"][i + 1]) > 1 and f["locals"][i + 1][1] else "a%d" % i
                      for i in range(f["nargs"])]
        if args is None:
            args = [None] * f["nargs"]
        if len(args) != f["nargs"]:
            raise Undecided("parameter list of %s differs" % suffix)
        vals = []
        for i, a in enumerate(args):
            vals.append(mk("sym", "p%d" % i) if a is None else a)
        self.args = vals
        t = time.time()
        self.ret, self.st, self.pc = R.run_fn(self.key, vals, st or State(), pc)
        self.dt = time.time() - t
        self.R = R

    @property
    def ok(self):
        return b_and(self.pc, b_not(B.is_err(self.ret)))

    @property
    def val(self):
        """the Ok / Some payload, under ok"""
        return payload(self.ret)

    def where(self):
        return "function `%s`" % self.path


def payload(r):
    def f(x):
        if x.op == "chk":
            return x.a[1]
        if x.op == "adt" and x.a[1] in ("Ok", "Some"):
            return x.a[3][0][1] if x.a[3] else UNIT
        if x.op == "adt" and x.a[1] in ("Err", "None"):
            return UNDEF
        return fld(as_var(x, "Ok", 0), "0")
    return lift(r, f)


class Ledger:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = 0
        self.failures = []   # (construct, rule, detail)
        self.rules = {}
        self.analysed = {}
        self.samples = []
        self.undecided = []

    def ob(self, good, where, rule, detail=""):
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if not good:
            self.failures.append((where, rule, detail() if callable(detail) else detail))
        elif len(self.samples) < 12:
            self.samples.append("%s: %s" % (where, rule))
        return good

    def did(self, where, **kw):
        self.analysed[where] = kw


class Ctx:
    def __init__(self, pid, dumps):
        self.pid = pid
        self.dumps = dumps
        self.L = Ledger(pid)
        self._main = self._sdk = None
        self._entries = {}

    @property
    def main(self):
        if self._main is None:
            self._main = Program([d for d in self.dumps if "sdk" not in d])
        return self._main

    @property
    def sdk(self):
        if self._sdk is None:
            self._sdk = Program(self.dumps)
        return self._sdk

    def ixs(self):
        pre = CRATE + "::__private::__global::"
        return sorted(k[len(pre):] for k in self.main.fns if k.startswith(pre) and "::" not in k[len(pre):] and "{" not in k)

    def entry(self, ix, boundary=PURE):
        k = (ix, boundary)
        if k not in self._entries:
            lost = [b for b in boundary if not self.main.find(b, all=True)]
            if lost:
                raise Undecided("functions the analysis stops at are not found: " + ", ".join(lost))
            e = Entry(self.main, ix, boundary)
            self._entries[k] = e
            if e.ok is FALSE:
                raise Undecided("%s: no path is seen to succeed" % e.where())
            self.L.did(e.where(), blocks=e.R.nblocks, calls=e.R.ncalls, functions=len(e.R.inlined), events=len(e.events),
                       seconds=round(e.dt, 2))
        return self._entries[k]

    def fn(self, suffix, *a, **k):
        prog = k.pop("prog", None) or self.main
        f = Fn(prog, suffix, *a, **k)
        self.L.did(f.where(), blocks=f.R.nblocks, calls=f.R.ncalls, functions=len(f.R.inlined), seconds=round(f.dt, 2))
        return f

    def ob(self, *a):
        return self.L.ob(*a)

    def attempt(self, fn, *a):
        """run a rule; a lost anchor is a violation, an analysis that gives up leaves the rest of the rule undecided"""
        import traceback
        try:
            fn(self, *a)
        except Missing as e:
            self.ob(False, str(e), "the construct the rule is anchored to exists", "not found in the program")
        except Undecided as e:
            self.L.undecided.append("%s: %s" % (getattr(fn, "__name__", "rule"), e))
        except (Unsupported, AttributeError, IndexError, KeyError, TypeError, ValueError, AssertionError, ZeroDivisionError, RecursionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.L.undecided.append("%s%s: %s: %s (%s:%d)" % (getattr(fn, "__name__", "rule"), "".join(" " + str(x)[:60] for x in a),
                                                         type(e).__name__, e, tb.filename.rsplit("/", 1)[-1], tb.lineno))

    def split(self, whole, cases):
        """obligations decided at once, or else case by case"""
        keep = self.L
        self.L = Ledger(self.pid)
        whole()
        if self.L.failures:
            self.L = Ledger(self.pid)
            for c in cases:
                c()
        new, self.L = self.L, keep
        self.L.merge(new)

    def each(self, items, fn, jobs=8):
        """fn(self, item) for every item, in forked workers; the ledgers are merged in item order"""
        import os
        import pickle
        import traceback
        self.main  # load once, before forking
        heavy = {"swap2": 0, "migration_damm_v2": 1, "swap": 2, "migrate_meteora_damm": 3}
        todo = sorted(range(len(items)), key=lambda i: (heavy.get(str(items[i]), 9), i))
        if len(items) == 1:
            self.attempt(fn, items[0])
            return
        live, res, late = {}, {}, False
        import resource
        import select
        import signal

        def spawn(i):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    self.L = Ledger(self.pid)
                    self.attempt(fn, items[i])
                    out = pickle.dumps(("ok", self.L))
                except MemoryError:
                    self.L = None
                    os._exit(3)
                except BaseException:
                    out = pickle.dumps(("err", "%s: %s" % (items[i], traceback.format_exc(limit=-12))))
                with os.fdopen(w, "wb") as f:
                    f.write(out)
                os._exit(0)
            os.close(w)
            live[r] = (i, pid, bytearray())

        while todo or live:
            while todo and len(live) < jobs:
                spawn(todo.pop(0))
            rs, _, _ = select.select(list(live), [], [], max(0.5, EACH_LIMIT - (time.time() - START)))
            if time.time() - START > EACH_LIMIT and not late:
                late, todo = True, []
                for i, pid, buf in live.values():
                    os.kill(pid, signal.SIGKILL)
            for r in rs:
                b = os.read(r, 1 << 20)
                i, pid, buf = live[r]
                if b:
                    buf += b
                else:
                    os.close(r)
                    os.waitpid(pid, 0)
                    del live[r]
                    res[i] = bytes(buf)
        for i in range(len(items)):
            if not res.get(i):
                self.L.undecided.append("%s: %s" % (items[i], "no time left" if late else "the analysis outgrew its memory"))
                continue
            k, v = pickle.loads(res[i])
            if k == "err":
                raise RuntimeError(v)
            self.L.merge(v)


def _merge(self, o):
    self.obligations += o.obligations
    self.failures += o.failures
    for k, n in o.rules.items():
        self.rules[k] = self.rules.get(k, 0) + n
    self.analysed.update(o.analysed)
    self.undecided += o.undecided
    self.samples += o.samples[:max(0, 12 - len(self.samples))]


Ledger.merge = _merge
