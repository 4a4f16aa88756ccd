#!/usr/bin/env python3
"""Writes checks.json, properties.jsonl and MANIFEST.json from one description."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def dump(path, obj):
    with open(os.path.join(ROOT, path), "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")

checks = {"properties": {}}
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [],
    "not_applicable": NOT_APPLICABLE,
    "notes": "All checks are jobs of one symbolic executor (gosym) over go/ssa of /repo's current source; see DESIGN.md.",
}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        seen = set()
        for j in p["jobs"]:
            assert j["id"] not in seen, (p["id"], j["id"])
            seen.add(j["id"])
        checks["properties"][p["id"]] = {"assumptions": p["assume"], "jobs": p["jobs"]}
        manifest["checks"].append({
            "property": p["id"],
            "quick_cmd": "bash check.sh quick " + p["id"],
            "thorough_cmd": "bash check.sh thorough " + p["id"],
            "technique": "bounded symbolic execution of the real code (go/ssa) with SMT verdicts",
            "level": "model_checking",
            "level_note": p["note"],
        })
dump("checks.json", checks)
dump("MANIFEST.json", manifest)
print(len(PROPS), "properties,", sum(len(p["jobs"]) for p in PROPS), "jobs")
