#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/spec.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools import spec
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(spec.CLAIMED + spec.NOT_APPLICABLE, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p.get("state"):
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for x in p["files"] + [w for _, w in p["mech"]]:
            if not os.path.exists("/repo/" + x):
                print("no such anchor", p["id"], x)
m = {"version": 1, "setup_cmd": "python3 /verif/bin/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/bin/check.py %s" % p["id"], "thorough_cmd": "python3 /verif/bin/check.py %s --tier thorough" % p["id"],
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in sorted(spec.CLAIMED, key=lambda p: p["id"])],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(spec.NOT_APPLICABLE, key=lambda p: p["id"])],
     "notes": "All checks read /repo's current sources through Clang's or Python's parser; nothing of /repo is executed. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(spec.CLAIMED), "claimed", len(spec.NOT_APPLICABLE), "not applicable")
