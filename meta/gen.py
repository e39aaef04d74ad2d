#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/p*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(V, "meta", "C*.json")))]
KEYS = ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ps:
        f.write(json.dumps({k: p[k] for k in KEYS}, ensure_ascii=False) + "\n")
checks = []
for p in ps:
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": p["technique"], "level": "exploration",
                   "level_note": p["level_note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
           "not_applicable": [],
           "notes": "Every check is generated-input search against an explicit oracle (see DESIGN.md); "
                    "no hooks in /repo. Fixed and known defects: known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
assert all(os.path.exists(os.path.join(V, "props", p["id"].lower() + ".py")) for p in ps)
assert all(len(p["title"]) <= 80 for p in ps), [p["title"] for p in ps if len(p["title"]) > 80]
