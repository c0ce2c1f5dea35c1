#!/usr/bin/env python3
# prints a line per harness of the evidence files named on the command line
import json,sys,glob
for i in sys.argv[1:] or sorted(glob.glob("/verif/evidence/C*.json")):
    if not i.endswith(".json"): i=f"/verif/evidence/{i}.json"
    d=json.load(open(i))
    def find(o):
        if isinstance(o,dict):
            if "harness" in o and "paths" in o: yield o
            else:
                for v in o.values(): yield from find(v)
        elif isinstance(o,list):
            for v in o: yield from find(v)
    for h in find(d):
        print(f"{h['harness']:28} paths {h['paths']:7} {h['path_ends']} q {h['solver_queries']} unk {h['unknown']} solver {h['solver_s']:.0f}s wall {h['wall_s']:.1f}s complete {h['complete_within_bounds']} samples {h.get('samples_agreeing')}/{h.get('samples_replayed')} cand {h['counterexample_candidates']} {h.get('outside_encoding') or ''} {h.get('sample_mismatches') or ''} {h.get('unconfirmed') or ''}")
