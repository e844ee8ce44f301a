#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        m = PROPS[i]
        checks.append({"property": i, "quick_cmd": "bash run.sh " + i, "thorough_cmd": "bash run.sh " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": m["technique"], "level": m["level"],
                       "level_note": m["rule"] + ". Assumes: " + ("; ".join(m["assumes"]) or "nothing beyond the trusted base") + ". Trusts: " + "; ".join(m["trusted"]) + "."})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "No check was finished for it yet; nothing is claimed.")} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh full", "checks": checks, "not_applicable": na,
           "notes": "One analyser (sa/), run as rustc wrapper under cargo check over /repo's working tree; see DESIGN.md. No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
