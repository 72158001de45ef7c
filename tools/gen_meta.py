#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

T = "bounded exhaustive stateless model checking of the real code against a reference model"
TS = "exhaustive schedule exploration of the real code under a controlled scheduler (preemption bounded) plus a free-running race pass"
P = []

def prop(id, title, statement, over, text, why, files, mech, technique=T, note="", na=None, state=None, level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state or [], level=level))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")

m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./run.sh %s quick" % p["id"],
        "thorough_cmd": "./run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in P if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "No hooks in /repo: the checks link the unmodified packages (the schedule explorer instruments a copy of the sources it reads at check time and passes it with go build -overlay). github.com/oov/downscale, which is not available offline, is replaced by /verif/stubs/downscale.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
