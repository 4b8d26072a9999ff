#!/usr/bin/env python3
# regenerates /verif/MANIFEST.json from properties.jsonl, the contract files present and the notes below
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    if os.path.exists(os.path.join(root, "contracts", i + ".spec")) and i not in notes["not_applicable"]:
        checks.append({"property": i, "quick_cmd": "tools/check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough tools/check.sh " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification of the Go SSA of /repo (gover: weakest preconditions to SMT, z3/cvc5)",
                       "level": notes["level"].get(i, "proof"), "level_note": notes["level_note"].get(i, "All obligations generated from the contracts are discharged for all inputs; see trusted_base in the evidence file.")})
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "not covered yet: contracts for this property are still to be written")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are checked against the SSA form of /repo's current source on every run."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
