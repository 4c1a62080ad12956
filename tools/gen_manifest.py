#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in cfg:
        na.append({"property": i, "reason": cfg.get("_na", {}).get(i, "harness not built yet")}); continue
    c = cfg[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                   "technique": c.get("technique", "property-based testing: rapid generators against an executable reference model, with shrinking"),
                   "level": c.get("level", "exploration"),
                   "level_note": c.get("note", "random structured search against an explicit oracle; assurance grows with the number of generated cases in the evidence file, nothing is proved")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses use the exported API through go's -overlay; see DESIGN.md. Known and repaired defects: known_findings.txt."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); print(len(checks), "claimed", len(na), "not")
