#!/usr/bin/env python3
"""Writes design/cost.json from the evidence of the last quick runs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(os.listdir(os.path.join(V, "evidence"))):
    if f.startswith("C") and f.endswith(".json"):
        e = json.load(open(os.path.join(V, "evidence", f)))
        c = e["coverage"]
        if e["tier"] == "quick":
            out[e["property"]] = [round(e["wall_s"]), c["states"], c["solver_queries"], len(c["functions_encoded"])]
json.dump(out, open(os.path.join(V, "tools", "design", "cost.json"), "w"))
