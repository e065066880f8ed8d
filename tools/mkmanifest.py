#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "contract-based deductive verification of the real code: contracts (pre/postconditions, frames, loop invariants, ghost state) on the functions in /repo, obligations generated from the current source and discharged by z3/cvc5; concrete runs search the failing input"
checks = [{"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
           "technique": PROPS[p].get("technique", TECH), "level": PROPS[p].get("level", "proof"), "level_note": PROPS[p].get("note", "every obligation of the listed functions is discharged for all inputs; see DESIGN.md for assumptions")} for p in ids if p in PROPS]
na = [{"property": p, "reason": props.NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in PROPS]
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3\"", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
