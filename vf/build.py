"""Rebuilds everything a check needs from /repo's current tree: the mirror, the rustc driver and the MIR dump."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CRATES = ("dynamic_bonding_curve", "dynamic_bonding_curve_sdk")


class BuildError(Exception):
    pass


def _env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTC_", "RUSTUP_TOOLCHAIN", "RUSTFLAGS"))
         and k not in ("CARGO_TARGET_DIR", "CARGO", "RUSTFLAGS")}
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


def sources(root):
    for top in ("programs", "dynamic-bonding-curve-sdk", "libs", "idls", "keys"):
        p = os.path.join(root, top)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".json", ".lock", ".so")):
                    yield os.path.join(d, f)
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(root, f)
        if os.path.exists(p):
            yield p


def digest(paths, root=""):
    h = hashlib.sha256()
    for p in paths:
        h.update(os.path.relpath(p, root or "/").encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError as e:
            h.update(str(e).encode())
    return h.hexdigest()


def run(cmd, cwd, env, what, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout


def driver():
    d = os.path.join(VERIF, "driver")
    srcs = [os.path.join(d, "Cargo.toml"), os.path.join(d, "src/main.rs"), os.path.join(d, "src/json.rs")]
    key = digest(srcs, VERIF)
    out = os.path.join(BUILD, "driver")
    exe = os.path.join(out, "debug", "mirdump")
    stamp = os.path.join(out, "key")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        os.makedirs(out, exist_ok=True)
        run(["cargo", "+nightly", "build", "--offline"], d, _env(CARGO_TARGET_DIR=out), "driver build")
        with open(stamp, "w") as f:
            f.write(key)
    return exe, key


def dump(log=lambda *a: None):
    """-> (list of dump paths, info)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        exe, dkey = driver()
        stubs = []
        for d, ds, fs in os.walk(os.path.join(VERIF, "stubs")):
            ds[:] = [x for x in ds if x != "target"]
            stubs += [os.path.join(d, f) for f in fs]
        key = hashlib.sha256((dkey + digest(sorted(stubs) + [os.path.join(VERIF, "mirror.py")], VERIF)
                              + digest(list(sources(REPO)), REPO)).encode()).hexdigest()
        out = os.path.join(BUILD, "dump")
        stamp = os.path.join(out, "key")
        paths = [os.path.join(out, c + ".json") for c in CRATES]
        info = {"source_digest": key[:16]}
        if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(p) for p in paths):
            info["cached"] = True
            return paths, info
        src = os.path.join(BUILD, "src")
        run([sys.executable, os.path.join(VERIF, "mirror.py"), REPO, src], VERIF, _env(), "mirror")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"], src, _env(), "sysroot").strip()
        env = _env(LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
                   RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(BUILD, "tn"))
        # the dump is a side effect of compiling: force the two crates to be compiled
        for c in CRATES:
            for d, _, fs in os.walk(src):
                if d.endswith("/src") and "lib.rs" in fs and "/stubs/" not in d:
                    os.utime(os.path.join(d, "lib.rs"))
        run(["cargo", "check", "--workspace", "--offline"], src, env, "type-check of the mirrored workspace")
        for p in paths:
            if not os.path.exists(p):
                raise BuildError("no dump produced for " + p)
        with open(stamp, "w") as f:
            f.write(key)
        info["cached"] = False
        info["build_s"] = round(time.time() - t0, 1)
        return paths, info


if __name__ == "__main__":
    print(dump())
