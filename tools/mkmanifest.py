#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import checks
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
GEN = "behaviours of a TLA+ specification (TLC: exhaustive + simulated) replayed in the real code; recorded runs validated by TLC against the specification"
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": f"./check {p} --tier quick", "thorough_cmd": f"./check {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": NOTES.get(p, {}).get("technique", GEN), "level": "model_checking",
                 "level_note": NOTES.get(p, {}).get("note", "Bounded: holds on every behaviour generated and replayed in this run; see DESIGN.md.")}
                for p in props if p in checks.CHECKS],
     "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in props if p not in checks.CHECKS],
     "notes": "No hooks: every property is observed through the public API or the command line. Specifications in spec/ (TLA+, TLC)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
