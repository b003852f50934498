"""The property rules. Each module registers functions with @prop."""
import importlib
import os
import pkgutil

RULES = {}
FLOOR = {}
LEVEL = {}

TRUSTED = [
    "rustc's MIR construction and type checking of the mirrored workspace (the mirror replaces only the external crates that "
    "are not available offline by signature stubs)",
    "vf/engine.py: the abstract interpreter's transfer functions, and vf/builtins.py: its models of core, Anchor and SPL calls",
    "vf/terms.py: the term normaliser deciding equality and implication",
]
ASSUMPTIONS = [
    "the Solana runtime and the called programs (SPL token, system, locker, DAMM) behave as documented; a failed CPI aborts the "
    "transaction",
    "Anchor account wrappers check owner and discriminator as their documentation states",
]


def prop(pid, floor=1, level="proof"):
    def d(f):
        assert pid not in RULES, pid
        RULES[pid] = f
        FLOOR[pid] = floor
        LEVEL[pid] = level
        return f
    return d


def level(pid):
    return LEVEL.get(pid, "proof")


def load(pid=None):
    for m in pkgutil.iter_modules([os.path.dirname(__file__)]):
        importlib.import_module("vf.props." + m.name)
    return RULES[pid] if pid else RULES
