"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from registry import REG, NOT_APPLICABLE  # noqa: E402

root = os.path.dirname(here)
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REG:
        r = REG[i]
        checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
                       "technique": "TLA+ specification (TLC): trace validation of recorded calls against spec/%s%s%s" % (
                           r["trace"],
                           "; exhaustive model checking of " + ", ".join(sorted({m[0] for m in r["models"]})) if r.get("models") else "",
                           "; replay of behaviours generated from " + r["gen"]["quick"][0] if r.get("gen") else ""),
                       "level": r.get("level", "model_checking"),
                       "level_note": r.get("note", "Every recorded call is judged by TLC against the specification; bounded by the inputs the drivers generate. "
                                           "Trusts the projection of results into the trace (harness/*_drivers.py).")})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ checked with TLC (see DESIGN.md). No hooks in /repo: the public API exposes the abstract state. fix: commits are listed in known_findings.json."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
sch = "/root/.vp/MANIFEST.schema.json"
if os.path.exists(sch):
    import jsonschema
    jsonschema.validate(m, json.load(open(sch)))
print(len(checks), "checks", len(na), "not applicable")
