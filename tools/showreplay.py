import json,sys
d=json.load(open(sys.argv[1]));sc=d.get('scenario',d)
for k,v in sc.items():
    if k=='ops':
        for o in v: print('  ',json.dumps(o,ensure_ascii=False))
    elif k not in('sched',): print(k,json.dumps(v,ensure_ascii=False)[:2000])
print('sched',json.dumps(sc.get('sched')))
