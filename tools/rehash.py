#!/usr/bin/env python3
"""Refresh the commit hashes of the "fixed" entries after a rebase (matched by message body)."""
import json, subprocess
log = subprocess.run(["git","-C","/repo","log","--format=%H%x01%b%x02"],capture_output=True,text=True).stdout
body = {b.strip(): h.strip()[:10] for h, b in (e.split("\x01") for e in log.split("\x02") if "\x01" in e)}
p="/verif/known_findings.json"; k=json.load(open(p)); out=[]
for f in k["fixed"]:
    a,b,h,what=f.split(" ",3)
    out.append(f"{a} {b} {body[what.strip()]} {what}")
k["fixed"]=out; json.dump(k,open(p,"w"),indent=1)
