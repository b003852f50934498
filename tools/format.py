#!/usr/bin/env python3
"""Records the published formats (vf/props/format.json) from the tree under /repo. Run once per published release, never by a check."""
import json
import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from vf import build, spec
    from vf.props import format as F
    r = build.dump()
    C = spec.Ctx("X", r[0] if isinstance(r, tuple) else r)
    rec = F.collect(C)
    for ix in sorted(C.ixs()):
        rec["instructions"][ix] = F.interface(C, ix)
    out = ["{"]
    for i, (k, v) in enumerate(rec.items()):
        out.append(" %s: {" % json.dumps(k))
        out.append(",\n".join("  %s: %s" % (json.dumps(a), json.dumps(b)) for a, b in v.items()))
        out.append(" }" + ("," if i < len(rec) - 1 else ""))
    open(F.REC, "w").write("\n".join(out) + "\n}\n")


sys.setrecursionlimit(10 ** 6)
threading.stack_size(1 << 29)
t = threading.Thread(target=main)
t.start()
t.join()
