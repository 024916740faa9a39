#!/usr/bin/env python3
"""Commit the pending /repo change as a fix and record it: fixc.py C01[,C02] 'subject' 'what failed'"""
import json, subprocess, sys
ids, subject, what = sys.argv[1:4]
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], check=True, capture_output=True, text=True).stdout
git("commit", "-qam", "fix: " + subject + "\n\n" + what)
h = git("rev-parse", "--short=10", "HEAD").strip()
p = "/verif/known_findings.json"
try: k = json.load(open(p))
except FileNotFoundError: k = dict(findings=[], fixed=[])
for i in ids.split(","): k["fixed"].append(f"fixed: property={i} {h} {what}")
json.dump(k, open(p, "w"), indent=1)
print(h, git("show", "--stat", "--format=%s", "HEAD"))
