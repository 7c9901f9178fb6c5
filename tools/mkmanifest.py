"""Rewrite MANIFEST.json from props/meta.py and properties.jsonl (run by hand after adding a property)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props.meta import META, NOT_APPLICABLE  # noqa: E402

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over simulated executions of the real code"
checks = []
for p in props:
    if p in META:
        d = META[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": TECH + (", " + d["tech"] if "tech" in d else ""), "level": d["level"],
                       "level_note": "Seeded search, no exhaustiveness: " + d["rule"] + ". Trusts: " + "; ".join(d["assumptions"])})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet")} for p in props if p not in META]
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every source of nondeterminism is replaced at seams the code already has (module-level "
                    "pools, generators passed as arguments, the open/rename/fsync calls of the file writers, callbacks). "
                    "Repairs of genuine defects are listed in known_findings.txt."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
