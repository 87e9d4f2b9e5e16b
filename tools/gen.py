#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", ["LatexToMathML::convert_with_local_state"]),
                        "hook_needed": None}}, ensure_ascii=False) + "\n")
checks = []
for p in PROPS:
    if p.get("technique") is None:
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": f"./run.sh {p['id']} quick",
                   "thorough_cmd": f"./run.sh {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
na = [{"property": k, "reason": v} for k, v in NA.items()]
na += [{"property": p["id"], "reason": "check not built yet"} for p in PROPS
       if p.get("technique") is None and p["id"] not in NA]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are black-box bounded exhaustive explorations of the real code "
                    "(public Rust API, the mathcore binary, the Python extension) built from /repo's "
                    "working tree; no hooks are needed. See DESIGN.md."},
          open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
