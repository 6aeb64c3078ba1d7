#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification model-checked with TLC; traces of the real code, driven by model behaviours and generated scripts, validated by TLC"
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    t = open(f).read()
    m = re.match(r'"""(.*?)"""', t, re.S)
    note = " ".join(m[1].split()) if m else ""
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']}",
                   "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": TECH, "level": "model_checking",
                   "level_note": note or "Conformance is shown for the replayed inputs and histories only."})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks: every abstract state is observable through the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
