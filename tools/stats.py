import json,sys,collections
c=collections.Counter(); er=collections.defaultdict(collections.Counter)
for l in open(sys.argv[1]+'/steps.ndjson'):
    s=json.loads(l); ix=s['e']['ix']; c[ix,s['r'].get('ok')]+=1
    if not s['r'].get('ok'): er[ix][s['r'].get('err','')[:60]]+=1
for k in sorted(c,key=str): print(k,c[k])
for k in er: print(k,er[k].most_common(12))
