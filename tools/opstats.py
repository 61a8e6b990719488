import json,glob,collections
for f in glob.glob('/verif/work/C09-quick/*.cur'):
    r=json.load(open(f)); print(r.get('op'), r.get('pre'))
c=collections.Counter()
for l in open('/verif/work/C09-quick/moves.ndjson'):
    for s in json.loads(l)['steps']:
        c[s['op'],'ev']+=len(s['evals']); c[s['op'],'ap']+=s['applied']
for k in sorted({a for a,b in c}): print(k,c[k,'ev'],c[k,'ap'])
