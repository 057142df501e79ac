import json,collections,sys
for f in sys.argv[1:]:
    c=collections.Counter()
    for l in open(f):
        d=json.loads(l)
        for e in d['events']:
            if e['ev']=='panic': c[(e['step'],e['msg'][:90], d['small'])]+=1
            elif 'res' in e: c[(e['ev'],e['res'])]+=1
            elif e['ev']=='scale': c[('scale',e['restored'],e['repeatable'])]+=1
            else: c[e['ev']]+=1
    print(f)
    for k,v in sorted(c.items(),key=str): print('   ',k,v)
