#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and lib/checklist.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
from checklist import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
TECH = {"seq": "property-based testing with a reference model, plus coverage-guided fuzzing of the same oracle (address sanitizer)",
        "sched": "property-based testing of thread schedules: generated programs under a generated deterministic schedule, with history oracles and a data-race monitor"}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "check not built yet"}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
        "technique": c.get("technique", TECH[c["kind"]]), "level": "exploration",
        "level_note": c.get("note", "Generated-input search against an explicit oracle: shows no counterexample among the cases counted in the evidence file; not a proof. Trusts the oracle in checks/" + c["src"][0] + ", the engine in lib/ and the compiler's sanitizer.")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "Checks build everything from /repo's working tree into /verif/build (git-ignored). No hooks in /repo are needed: the environment is virtualised at link time."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "claimed,", len(na), "not yet")
