#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of built checks.
import json
CLAIMED=json.load(open("/verif/tools/claimed.json"))
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
NA=json.load(open("/verif/tools/not_applicable.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        c=CLAIMED[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}","technique":c["technique"],"level":c["level"],"level_note":c["note"]})
    else:
        na.append({"property":i,"reason":NA.get(i,"not built yet")})
json.dump({"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na},open("/verif/MANIFEST.json","w"),indent=1)
open("/verif/MANIFEST.json","a").write("\n")
