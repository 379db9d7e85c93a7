#!/usr/bin/env python3
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open(sys.argv[1]))
m=sorted(set(b['stable'])-set(t['passed']))
print('stable tests not passing:',m)
sys.exit(1 if m else 0)
