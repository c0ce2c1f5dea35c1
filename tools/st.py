import json,sys
for l in open(sys.argv[1]):
    if l.startswith('{'):
        d=json.loads(l)
        ok=d['complete_within_bounds'] and d['samples_replayed']==d['samples_agreeing']
        print('ok ' if ok else 'BAD',d['harness'],d['paths'],d['path_ends'],d['samples_replayed'],d['samples_agreeing'],round(d['wall_s'],1))
        if not ok:
            for k in ('outside_encoding','sample_mismatches','unconfirmed'):
                if d.get(k): print('     ',k,str(d[k])[:900])
    elif l.startswith(('initialiser','error')): print(l[:300].strip())
