#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
claimed = json.load(open(os.path.join(here, "tools", "claims.json")))
tech = "contract-based deductive verification: contracts in /verif/specs checked against /repo's current Go source by a verification-condition generator (govc) with z3/cvc5; bounded replay harness for counterexamples"
checks, na = [], []
for i in ids:
    c = claimed.get(i)
    if c and c.get("claim"):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i} -tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "proof", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": (c or {}).get("reason", "not yet built")})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
