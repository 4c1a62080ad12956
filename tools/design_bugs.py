#!/usr/bin/env python3
"""Refreshes the list of planted bugs in DESIGN.md (development aid)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f"{V}/DESIGN.md"; s = open(d).read()
rows = "".join(f"- `{os.path.basename(os.path.dirname(f))}` ({json.load(open(f))['property']}): {json.load(open(f))['what_it_breaks'].strip()}\n" for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")))
s = re.sub(r"(the property it names:\n\n)(?:- .*\n)*", lambda m: m[1] + rows, s)
open(d, "w").write(s)
