#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its two markers) from seeded/*/meta.json."""
import json,glob,os,re
r=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| bug | caught by | needs | breaks |","|---|---|---|---|"]
for d in sorted(glob.glob(r+"/seeded/*/meta.json")):
    m=json.load(open(d))
    rows.append("| %s | %s | %s | %s |"%(os.path.basename(os.path.dirname(d)),m["property"],m["needs"].replace("|","/"),m["what_it_breaks"].replace("|","/")))
p=r+"/DESIGN.md"; t=open(p).read()
t=re.sub(r"(<!-- seeded -->\n).*?(\n<!-- /seeded -->)",lambda k:k.group(1)+"\n".join(rows)+k.group(2),t,flags=re.S)
open(p,"w").write(t)
