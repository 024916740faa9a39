#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
from claims import CLAIMS, NA
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in P]
checks = [dict(property=i, quick_cmd=f"/opt/venv/bin/python -B run.py {i}",
               thorough_cmd=f"/opt/venv/bin/python -B run.py {i} --tier thorough",
               technique=CLAIMS[i][0], level="model_checking", level_note=CLAIMS[i][1]) for i in ids if i in CLAIMS]
na = [dict(property=i, reason=NA.get(i, "check under construction")) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B -m compileall -q -f mc >/dev/null && rm -rf /verif/mc/__pycache__; true", checks=checks, not_applicable=na),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(ids), "properties,", len(checks), "claimed")

# the table of planted bugs in DESIGN.md
import re
caught = {}
if os.path.exists(os.path.join(here, "caught.json")): caught = json.load(open(os.path.join(here, "caught.json")))
rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {' '.join(m['needs'].split())} | {caught.get(d, '?')} |")
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
text = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), text, flags=re.S)
open(path, "w").write(text)
