#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties that have a check."""
import json,subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED=json.load(open('/verif/tools/claimed.json'))
TECH="deterministic simulation with fault injection: seeded search over schedules and fault sequences"
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        c=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i}","evidence_file":f"evidence/{i}.json",
          "technique":TECH+(", "+c["against"] if c.get("against") else ""),"level":"exploration","level_note":c["note"]})
    else:
        na.append({"property":i,"reason":"no check yet"})
hooks=json.load(open('/verif/tools/hooks.json'))
m={"version":1,"setup_cmd":"./build.sh","hooks":hooks,"checks":checks,"not_applicable":na}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
print(len(checks),"claimed;",[x['property'] for x in na])
