#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_text.md with the table of planted bugs filled in from seeded/*/meta.json."""
import json,os,glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first-round misses: what was strengthened in answer
MISS=json.load(open(os.path.join(R,"tools","seed_misses.json")))
rows=["| planted bug | property (check that catches it) | what it breaks | needs | first round |","|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(R,"seeded","*","meta.json"))):
    i=os.path.basename(os.path.dirname(f)); m=json.load(open(f)); e=lambda s:s.replace("|","\\|")
    rows.append("| %s | %s | %s | %s | %s |"%(i,m["property"],e(m["what_it_breaks"]),e(m["needs"]),"missed; "+MISS[i] if i in MISS else "caught"))
t=open(os.path.join(R,"tools","design_text.md")).read().replace("<!--SEEDS-->","\n".join(rows))
open(os.path.join(R,"DESIGN.md"),"w").write(t); print(len(rows)-2,"planted bugs")
