#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
REPLAY = "TLC checks the TLA+ specification; its complete tables are replayed on the real code"
TRACE = "; recorded runs are validated against the specification by TLC"
NOTE = {
    "default": "Exhaustive within small bounds on both sides: TLC enumerates the specification's states and checks its laws, and every "
               "row of the printed tables is replayed on the real code in two builds (with and without debug assertions and overflow checks) "
               "over many element types and layouts. Larger sizes are sampled. Trusts TLC, the harness's translation of values, and that "
               "behaviour depends on the order pattern of the values involved.",
}
checks = []
for p in props:
    i = p["id"]
    tech = REPLAY + TRACE
    if i in ("C07", "C08", "C09", "C10", "C12", "C13", "C19"):
        tech += "; Apalache checks the algorithms for any number of values"
    if i == "C11":
        tech = "TLC model-checks the TLA+ specification of words as finite chains and validates recorded calls of succ, pred, MINIMUM and MAXIMUM of every integer type against it"
    checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                   "technique": tech, "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
           "notes": "No hooks: everything the checks need is public API. Repairs are the fix: commits in /repo, listed in known_findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
