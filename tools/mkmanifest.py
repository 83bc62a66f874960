#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the modules of amv/props."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(HERE, "amv", "props", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "check under construction"})
        continue
    p = importlib.import_module("amv.props." + pid.lower()).PROP
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid}",
        "technique": p.technique,
        "level": "exploration",
        "level_note": p.level_note,
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
