#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (between the markers) from the
checks' own rule texts, so that the document cannot drift from them."""
import json, os, subprocess, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = {c["property"]: c["technique"] for c in json.load(open(os.path.join(here, "MANIFEST.json")))["checks"]}
out = subprocess.run(["./check.sh", "describe"], cwd=here, capture_output=True, text=True, check=True).stdout
desc = {d["id"]: d for d in map(json.loads, out.splitlines())}
oracle = json.load(open(os.path.join(here, "tools", "oracles.json")))
L = []
for p in props:
    d = desc[p["id"]]
    L.append("### %s — %s\n" % (p["id"], p["title"]))
    L.append("*Specified:* %s\n" % p["statement"])
    L.append("*Method:* %s. *Oracle:* %s\n" % (tech[p["id"]], oracle[p["id"]]))
    L.append("*Generated:* %s\n" % d["rule"])
    L.append("*Cases:* %d random in the quick tier, %d in the thorough one, besides the sweep." % (d["quick"], d["thorough"]))
    if d["assumptions"]:
        L.append("*Assumed or left open:* %s." % "; ".join(a.rstrip(".") for a in d["assumptions"]))
    L.append("\n*Beyond the tests:* %s\n" % p["why_tests_cant"])
s = open(os.path.join(here, "DESIGN.md")).read()
a, rest = s.split("<!-- properties -->\n")
_, b = rest.split("<!-- end properties -->\n")
open(os.path.join(here, "DESIGN.md"), "w").write(a + "<!-- properties -->\n" + "\n".join(L) + "<!-- end properties -->\n" + b)
