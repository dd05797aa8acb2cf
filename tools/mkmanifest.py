#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from specs import SPECS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
            "technique": s.get("technique", "runtime monitoring: ASan/UBSan-instrumented real code under seeded hostile workloads, reference-model oracle on every observed result"),
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Every executed case is judged by an independent oracle and by sanitizers; no claim beyond the executed cases. Trusts the oracle in harness/%s and the compiler's sanitizer runtime." % s.get("src", ["(python)"])[0])})
    else: na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "Checks build /repo's working tree out of tree into /verif/build; no hooks were needed in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
