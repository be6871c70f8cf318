#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | property (its check catches it) | needs |","|---|---|---|"]
missed=set(open(os.path.join(root,"tools","missed.txt")).read().split()) if os.path.exists(os.path.join(root,"tools","missed.txt")) else set()
for d in sorted(os.listdir(os.path.join(root,"seeded"))):
    m=json.load(open(os.path.join(root,"seeded",d,"meta.json")))
    rows.append(f"| {d} | {m['property']}{' (MISSED)' if d in missed else ''} | {m['needs']} |")
p=os.path.join(root,"DESIGN.md"); s=open(p).read()
s=re.sub(r"<!-- seeds -->.*<!-- /seeds -->",lambda _:"<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->",s,flags=re.S)
open(p,"w").write(s)
