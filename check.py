#!/usr/bin/env python3
"""check.py <property id>: decide one property on the source currently in /repo."""
import json
import os
import re
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(1000000)
LIMIT = 850   # seconds; obligations not reached by then are undecided


def main(pid):
    t0 = time.time()
    from vf import build
    from vf.spec import Ctx
    from vf import props
    rule = props.load(pid)
    dumps, info = build.dump()
    C = Ctx(pid, dumps)
    C.thorough = os.environ.get("VERIF_TIER") == "thorough"
    L = C.L
    broke = []

    def work():
        try:
            C.attempt(rule)
        except BaseException as x:
            broke.append(x)
    w = threading.Thread(target=work, daemon=True)
    w.start()
    w.join(max(1, LIMIT - (time.time() - t0)))
    if broke:
        raise broke[0]
    if w.is_alive():
        L.undecided.append("the rule did not finish in time")
    known = []
    kf = os.path.join(HERE, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == pid]
    fresh = []
    for w, r, d in L.failures:
        hit = [k for k in known if k["where"] == w and k["rule"] == r]
        if hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, w, hit[0].get("what", r)))
        else:
            fresh.append((w, r, d))
    floor = props.FLOOR.get(pid, 1)
    if L.obligations < floor and not fresh and not L.undecided:
        fresh.append(("the whole program", "at least %d obligations are generated" % floor,
                      "only %d: the rule lost its anchors" % L.obligations))
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    ev = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": props.level(pid),
        "coverage": {
            "obligations": L.obligations,
            "discharged": L.obligations - len(L.failures),
            "checker_cmd": "python3 check.py " + pid,
            "trusted_base": props.TRUSTED,
            "rules": L.rules,
            "analysed": L.analysed,
            "samples": L.samples,
            "undecided": L.undecided,
            "failures": [list(f) for f in L.failures][:50],
            "source_digest": info.get("source_digest"),
            "explanation": "Rule obligations decided on the MIR of the current source; `analysed` lists the functions and "
                           "instructions walked with the number of basic blocks and calls visited on this run.",
        },
        "assumptions": props.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(build.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".txt")
        with open(p, "w") as f:
            f.write("property %s on source %s\n" % (pid, info.get("source_digest")))
            for w, r, x in fresh:
                f.write("\nin %s\n  rule: %s\n  %s\n" % (w, r, x))
        for w, r, x in fresh[:20]:
            print("  %s: %s%s" % (w, r, ("\n      " + str(x)[:1500].replace("\n", "\n      ")) if x else ""))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    for u in L.undecided:
        print("UNDECIDED: " + u[:300])
    print("%s: %d obligations discharged on %d constructs in %.1fs" % (pid, L.obligations, len(L.analysed), time.time() - t0))
    return 0


if __name__ == "__main__":
    threading.stack_size(1 << 29)
    rc = [2]
    if sys.argv[2:] == ["thorough"]:
        os.environ["VERIF_TIER"] = "thorough"

    def go():
        try:
            rc[0] = main(sys.argv[1])
        except BaseException:
            traceback.print_exc(limit=-12)
            rc[0] = 2

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc[0])
