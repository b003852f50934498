#!/usr/bin/env python3
"""tools/mutate.py [-j N] [-k substring] FILE: runs the edits listed in FILE (M(...) bugs, S(...) behaviour-preserving) in scratch copies of
/repo against the checks named with each, and reports bugs missed and false alarms. Development aid; no check reads it."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
SRC = "programs/dynamic-bonding-curve/src/"
ITEMS = []


def M(name, checks, *edits):
    ITEMS.append(("bug", name, checks.split(), edits))


def S(name, checks, *edits):
    ITEMS.append(("same", name, checks.split(), edits))


def main():
    a = sys.argv[1:]
    jobs, pat, every = 4, "", False
    while a and a[0].startswith("-"):
        if a[0] == "-c":   # all behaviour-preserving edits together, against every check
            every, a = True, a[1:]
            continue
        if a[0] == "-j":
            jobs = int(a[1])
        if a[0] == "-k":
            pat = a[1]
        a = a[2:]
    for f in a:
        exec(open(f).read(), globals())
    items = [i for i in ITEMS if pat in i[1] or pat in i[2]]
    if every:
        from vf import props
        allc = sorted(props.load(None))
        items = [("same", "all %d edits together" % len(items), [c], sum((i[3] for i in items if i[0] == "same"), ())) for c in allc]
    root = "/tmp/mutate"
    slots = queue.Queue()
    for k in range(jobs):
        d = "%s/%d" % (root, k)
        if not os.path.isdir(d + "/build"):
            os.makedirs(d, exist_ok=True)
            subprocess.check_call(["cp", "-a", V + "/build", d + "/build"])
        subprocess.check_call("rm -rf %s/repo && mkdir %s/repo && cd /repo && git archive HEAD | tar x -C %s/repo" % (d, d, d), shell=True)
        slots.put(d)
    bad = []

    def go(it):
        kind, name, checks, edits = it
        d = slots.get()
        out = []
        try:
            done = {}
            for f, old, new in edits:
                p = d + "/repo/" + (f if f.startswith(("dynamic-", "programs/", "libs/")) else SRC + f)
                s = open(p).read()
                done.setdefault(p, s)
                n = s.count(old)
                if n != 1:
                    out.append("EDIT %s matches %d times" % (f, n))
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_EVIDENCE=d + "/evidence")
                for c in checks:
                    try:
                        r = subprocess.run([sys.executable, V + "/check.py", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                           timeout=900)
                        rc, txt = r.returncode, r.stdout
                    except subprocess.TimeoutExpired:
                        rc, txt = 99, "timeout"
                    good = rc == (1 if kind == "bug" else 0)
                    first = [l for l in txt.splitlines() if l.strip()]
                    if not good or kind == "bug":
                        out.append("%s %s rc=%d %s" % ("ok  " if good else "MISS" if kind == "bug" else "ALARM", c, rc,
                                                        (first[0] if rc == 1 else first[-1] if first else "")[:230]))
                    if not good:
                        bad.append((kind, name, c, rc))
                        if rc not in (0, 1):
                            out += ["      " + l for l in first[-6:]]
            for p, s in done.items():
                open(p, "w").write(s)
        finally:
            slots.put(d)
        print("%-5s %s\n   %s" % (kind, name, "\n   ".join(out) or "quiet"), flush=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, items))
    print("%d edits, %d wrong: %s" % (len(items), len(bad), bad))


main()
