#!/usr/bin/env python3
"""Rewrites the fixed entries of known_findings.json from the fix commits of /repo (run by hand)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(os.path.join(here, "tools", "fixes.json")))
path = os.path.join(here, "known_findings.json")
old = [e for e in json.load(open(path)) if e["status"] != "fixed"] if os.path.exists(path) else []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
new = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    what = s[4:].strip()
    ps = props.get(what)
    if not ps:
        raise SystemExit("no property for fix: " + what)
    for p in ps:
        new.append({"status": "fixed", "property": p, "commit": h, "what": "fixed: property=%s %s %s" % (p, h, what)})
json.dump(new + old, open(path, "w"), indent=1)
open(path, "a").write("\n")
