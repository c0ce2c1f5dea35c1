#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the property table, the comments of the harnesses and seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "design")
def P(id, title, statement, over, text, why, files, mech, note, observe=()): return dict(id=id, title=title, text=text, files=files, note=note)
DEC = "encoding/midi/decoder.go"; ENC = "encoding/midi/encoder.go"; MTRK = "midi/MTrk.go"; MTHD = "midi/MThd.go"
PROPS = []
exec(open(os.path.join(V, "tools", "table.py")).read())
exec(open(os.path.join(D, "how.py")).read())
cost = json.load(open(os.path.join(D, "cost.json")))
bounds = {}
for f in sorted(os.listdir(os.path.join(V, "harness", "h"))):
    if re.fullmatch(r"c\d\d\.go", f):
        lines = open(os.path.join(V, "harness", "h", f)).read().split("\n")
        for i, l in enumerate(lines):
            m = re.match(r"// (C\d\d)_(\w+): (.*)", l)
            if m:
                s = m[3]; t = False
                for k in lines[i + 1:i + 5]:
                    if k.startswith("func "): break
                    if "@tier thorough" in k: t = True
                bounds.setdefault(m[1], []).append("`%s`%s: %s" % (m[2], " (thorough only)" if t else "", s))
seeded = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeded.setdefault(m["property"], []).append((d, m))
o = [open(os.path.join(D, "head.md")).read(), "## The properties\n"]
for p in PROPS:
    i = p["id"]
    o.append("### %s. %s\n" % (i, p["title"]))
    if i in NA:
        o.append("Not applicable: " + NA[i] + "\n"); continue
    o.append(HOW[i] + "\n")
    o.append("Over: " + p["text"] + ". Anchored in " + ", ".join("`%s`" % f for f in p["files"]) + ".\n")
    o.append("Bounds, per harness:\n")
    o += ["- " + b for b in bounds[i]]
    c = cost[i]
    o.append("\nCost of the quick check on 8 cores: about %s s, %s paths, %s queries, %s functions of the repository executed symbolically.\n" % (c[0], c[1], c[2], c[3]))
o.append(open(os.path.join(D, "tail.md")).read())
o.append("\n## Planted bugs and the checks that catch them\n")
o.append("Each is in `seeded/<id>/`, was confirmed to compile, pass the stable tests and fail its demonstration, and was run against the quick check of its property.\n")
res = json.load(open(os.path.join(D, "caught.json")))
o.append("| bug | property | what it breaks | caught by |\n|---|---|---|---|")
for i in sorted(seeded):
    for d, m in seeded[i]:
        o.append("| %s | %s | %s | %s |" % (d, i, m["what_it_breaks"], res.get(d, "?")))
extra = os.path.join(D, "end.md")
if os.path.exists(extra): o.append("\n" + open(extra).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
