#!/usr/bin/env python3
"""add_check.py ID grp [race-run-regex:scale] - registers a check (dev helper)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(f"{V}/checks.json"))
i, grp = sys.argv[1:3]
parts = [{"grp": grp, "run": f"^Test{i}"}]
for r in sys.argv[3:]:
    rx, sc = r.rsplit(":", 1); parts.append({"grp": grp, "run": rx, "race": True, "scale": float(sc)})
cfg[i] = {**cfg.get(i, {}), "parts": parts}
cfg = {k: cfg[k] for k in sorted(cfg)}
json.dump(cfg, open(f"{V}/checks.json", "w"), indent=1)
