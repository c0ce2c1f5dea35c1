#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the Go SSA of /repo, SMT (z3) decides every branch and assertion; counterexamples replayed natively"

def P(id, title, statement, over, text, why, files, mech, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe))

DEC = "encoding/midi/decoder.go"; ENC = "encoding/midi/encoder.go"; MTRK = "midi/MTrk.go"; MTHD = "midi/MThd.go"
PROPS = []
exec(open(os.path.join(V, "tools", "table.py")).read())

def main():
    claimed = set()
    h = os.path.join(V, "harness", "h")
    for f in os.listdir(h):
        if f.endswith(".go") and f != "registry.go":
            for l in open(os.path.join(h, f)):
                if l.startswith("func C") and "_" in l:
                    claimed.add(l[5:l.index("_")])
    with open(os.path.join(V, "properties.jsonl"), "w") as o:
        for p in PROPS:
            o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i in claimed:
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking", "level_note": p["note"] + " " + TRUST})
        else:
            na.append({"property": i, "reason": "not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo. Fixes to /repo are listed in known-findings.jsonl."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(checks), "checks;", "not claimed:", [n["property"] for n in na])
main()
