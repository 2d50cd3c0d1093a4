"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
from plan import NOTES, PLAN

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe the public API only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in PLAN:
        m["checks"].append({"property": p, "quick_cmd": "/opt/venv/bin/python harness/check.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python harness/check.py " + p,
                            "technique": "TLA+ specification checked with TLC, bound to the code by trace validation and replay of specification behaviours",
                            "level": "model_checking", "level_note": NOTES[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
m["notes"] = "See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
