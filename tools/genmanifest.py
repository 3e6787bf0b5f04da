#!/usr/bin/env python3
# Writes /verif/MANIFEST.json. A property is claimed when it has an entry in CLAIM.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the SSA form over a free-term (value-numbering) domain with BDD-guarded joins"
BASE = ("Every listed obligation is decided for all values of the abstract inputs by a path-joining dataflow analysis of the "
        "type-checked SSA program; anything the analysis cannot resolve counts as a violation. Trusts golang.org/x/tools/go/ssa, "
        "the checker itself and the summaries of primitives listed in the evidence. ")
CLAIM, NA = {}, {}
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIM:
        tech, note = CLAIM[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are runs of one static analyser, /verif/checker (Go, vendored dependencies). No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
