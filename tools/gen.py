#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
import props, registry
with open(f"{V}/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.P:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason=getattr(registry, "NOT_APPLICABLE", {}).get(p["id"], "not claimed yet: the exploration for it is still being built")))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"bin/check {p['id']}", thorough_cmd=f"bin/check {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c["technique"], level="model_checking", level_note=c["note"]))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every harness drives public API only; the fix: commits are listed in known-findings.txt.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "open")
