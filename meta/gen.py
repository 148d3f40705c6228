#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os
here = os.path.dirname(os.path.realpath(__file__))
ns = {}
exec(open(here + "/props.py").read(), ns)
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in ns["PROPS"]:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"],
                        "hook_needed": p.get("hook")},
        }, ensure_ascii=False) + "\n")
checks = []
for p in ns["PROPS"]:
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s --tier quick" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "verifshim", "enable": ns["HOOKS"], "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": ns["NOTES"],
}, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
