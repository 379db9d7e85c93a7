"""claim.py ID AGAINST NOTE : mark a property as claimed."""
import json,sys
p='/verif/tools/claimed.json'; c=json.load(open(p))
i,a,n=sys.argv[1:4]
c[i]={"against":a,"note":"Seeded random search, not exhaustive. "+n+" Assumes sequentially consistent memory and a faithful virtual kernel (see DESIGN.md)."}
json.dump(dict(sorted(c.items())),open(p,'w'),indent=1,ensure_ascii=False)
