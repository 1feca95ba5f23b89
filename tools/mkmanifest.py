#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
import spec
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[
    dict(property=p, quick_cmd=f"python3 run.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p}", technique=spec.TECH[p], level="exploration", level_note=spec.NOTE[p])
    for p in props], not_applicable=[], notes="See DESIGN.md. No hooks in /repo: everything is observed through the public API. known_findings.txt lists the repaired defects.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]))
