#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
import na
V = os.path.dirname(HERE)
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 /verif/check.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
     "notes": "All checks are static analyses of /repo's current sources; no code of /repo is executed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
# DESIGN.md: template plus the table of planted bugs
import glob
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    mt = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), mt["property"], mt.get("caught_by", mt["property"])))
if rows:
    t = open(HERE + "/DESIGN.tmpl.md").read().replace("@@SEEDS@@", "\n".join(rows)).replace("@@MORE@@\n\n", "")
    open(V + "/DESIGN.md", "w").write(t)
