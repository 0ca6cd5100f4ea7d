"""Write properties.jsonl and MANIFEST.json from tools/table.py."""
import json
import os
import sys

D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path.insert(0, D)
from table import P

P.sort(key=lambda p: p["id"])
checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert os.path.exists(os.path.join(V, "checks", "wl_%s.py" % p["id"].lower())), p["id"]
        json.dump(
            {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            },
            f,
        )
        f.write("\n")
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "./run.py %s --tier quick" % p["id"],
                "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"],
            }
        )
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./run.py --selftest", "checks": checks, "not_applicable": [],
               "notes": "The properties and this file are generated by tools/mk.py from tools/table.py."}, f, indent=1)
    f.write("\n")
print(len(P), "properties")
