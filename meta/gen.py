#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (the single place both are kept in)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = {k: p[k] for k in ("id", "title", "statement")}
        assert len(p["title"]) <= 80, p["id"]
        o["quantifier"] = {"over": p["over"], "text": p["quant"]}
        o["why_tests_cant"] = p["why"]
        o["anchors"] = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("observe"):
            o["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(o) + "\n")
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    if p["id"] in NA:
        m["not_applicable"].append({"property": p["id"], "reason": NA[p["id"]]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "sh check.sh " + p["id"],
                            "thorough_cmd": "sh check.sh %s thorough" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
m["notes"] = "Static analysis only: facts are read from the type-checked MIR of /repo's current source on every run."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(m["checks"]), "claimed")
