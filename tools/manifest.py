#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "cfg(miri)", "enable": "cargo miri run (the configuration miri of run.py; all other configurations build /repo without it)",
               "source_commits": ["4759619"]},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n is None or "na" in n:
        m["not_applicable"].append({"property": i, "reason": (n or {}).get("na", "its check is still being built")})
        continue
    m["checks"].append({
        "property": i, "quick_cmd": f"python3 run.py --property {i}",
        "thorough_cmd": f"python3 run.py --property {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
