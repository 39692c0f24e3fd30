#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": [],
     "notes": "Checks build /repo's sources with sanitizers into /verif/build (content-hashed, git-ignored). "
              "No hooks in /repo: everything is driven through public interfaces and link-time wrapping."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"],
                            "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "The check for it is not built yet (property-based testing applies)."})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
