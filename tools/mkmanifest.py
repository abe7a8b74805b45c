#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE  # noqa: E402
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, evidence_file="evidence/%s.json" % i,
                       technique=p.get("technique", "contract-based deductive verification (Verus) of functions cut from the current sources; bounded search on the real crate for counterexamples and functions out of reach"),
                       level=p["level"], level_note=p["explanation"] + " Assumes: " + "; ".join(p["assumptions"]) + ".", **({"theorems": p["theorems"]} if p.get("theorems") else {})))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check yet: contracts under construction")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="cfg(geo_crossings_verif)", enable="RUSTFLAGS=--cfg geo_crossings_verif (no hook has been needed so far)", source_commits=[]), checks=checks, not_applicable=na,
         notes="See DESIGN.md. Known findings and fixed defects: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
