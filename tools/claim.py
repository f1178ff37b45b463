#!/usr/bin/env python3
# claim.py ID technique note
import json,sys
p="/verif/tools/claimed.json"; d=json.load(open(p))
d[sys.argv[1]]={"technique":sys.argv[2],"level":"other","note":sys.argv[3]}
json.dump(dict(sorted(d.items())),open(p,"w"),indent=1); open(p,"a").write("\n")
