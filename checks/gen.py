#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPERTIES, NOT_APPLICABLE
from registry import PROPS
R = os.path.dirname(H)
na = {n["property"] for n in NOT_APPLICABLE}
with open(R + "/properties.jsonl", "w") as f:
    for p in PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        assert p["id"] in PROPS or p["id"] in na, p["id"]
        f.write(json.dumps(p) + "\n")
T = "bounded symbolic execution of the LLVM IR compiled from /repo's current headers; path conditions and assertions decided by z3 (bit-vectors) for every value within the bounds; counterexamples replayed against the native build"
TT = "bounded symbolic execution of each thread of the LLVM IR compiled from /repo's current headers; all interleavings within the bounds encoded as one SMT problem (event order, reads-from, happens-before) and decided by z3; counterexample schedules replayed against the native build"
checks = []
for p in PROPERTIES:
    if p["id"] not in PROPS: continue
    q = PROPS[p["id"]]
    mt = any(h.get("threads") for h in q["harnesses"])
    checks.append(dict(property=p["id"], quick_cmd="python3 vp.py %s quick" % p["id"], thorough_cmd="python3 vp.py %s thorough" % p["id"], technique=q.get("technique", TT if mt else T), level="model_checking",
                       level_note="Exhaustive within these bounds: %s. Outside: %s." % (q["bounds"], q["outside"])))
json.dump(dict(version=1, setup_cmd="python3 vp.py setup", hooks=dict(guard="none", enable="none: no hooks are compiled into the repository", source_commits=[]), checks=checks, not_applicable=NOT_APPLICABLE,
               notes="See DESIGN.md. No hooks are needed in /repo: harnesses include the real headers. Known findings and repaired defects: known-findings.json."), open(R + "/MANIFEST.json", "w"), indent=1)
