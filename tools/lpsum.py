import json,collections
c=collections.Counter(); ev=0; msgs=collections.Counter()
for l in open('/verif/work/lp.ndjson'):
    d=json.loads(l); c[(d['path'],d['result']['st'])]+=1; ev+=len(d['events'])
    if d['result']['st'] in('panic','cap'): msgs[(d['bi'],d['m'],d['path'],d['result']['msg'][:100])]+=1
for k,v in sorted(c.items()): print(k,v)
print(ev)
for k,v in sorted(msgs.items()): print(k,v)
