#!/usr/bin/env python3
"""Writes MANIFEST.json from tv/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tv.registry import REGISTRY
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
           "technique": REGISTRY[p][3], "level": REGISTRY[p][2], "level_note": REGISTRY[p][4]} for p in props if p in REGISTRY]
na = [{"property": p, "reason": "its check is not built yet"} for p in props if p not in REGISTRY]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "The tool is exercised through its command line and its generated code; no hooks in /repo are needed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
