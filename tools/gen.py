#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import catalogue as K

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "programs/dynamic-bonding-curve/src/"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in K.PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": [SRC + x if not x.startswith(("programs/", "libs/", "dynamic", "idls/")) else x for x in p["files"]],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    checks = []
    for p in K.PROPS:
        if "technique" not in p:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": "proof", "level_note": p.get("note", K.NOTE)})
    na = [{"property": p["id"], "reason": p["na"]} for p in K.PROPS if "na" in p]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m vf.build", "checks": checks, "not_applicable": na,
                   "notes": K.NOTES}, f, indent=1)
        f.write("\n")


main()
