#!/usr/bin/env python3
"""tools/mkbug.py: reads a planted bug from stdin as python: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO; writes seeded/ID."""
import json, os, subprocess, sys
g = {}
exec(sys.stdin.read(), g)
R = "/repo/programs/dynamic-bonding-curve/src/"
d = "/verif/seeded/" + g["ID"]
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "repo not clean"
try:
    for f, old, new in g["EDITS"]:
        p = f if f.startswith("/") else R + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.rs", "w").write(g["DEMO"].lstrip())
