#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["<!-- seeds -->","| id | caught by | needs | breaks |","|---|---|---|---|"]
missed=set(open(here+"/tools/missed.txt").read().split()) if os.path.exists(here+"/tools/missed.txt") else set()
for f in sorted(glob.glob(here+"/seeded/*/meta.json")):
    d=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {d['property'] if i not in missed else 'missed'} | {d['needs']} | {d['what_it_breaks']} |")
rows.append("<!-- /seeds -->")
p=here+"/DESIGN.md"; s=open(p).read(); t="\n".join(rows)
if "SEEDTABLE" in s: s=s.replace("SEEDTABLE",t)
else: s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda m:t,s,flags=re.S)
open(p,"w").write(s)
