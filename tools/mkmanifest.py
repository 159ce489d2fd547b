#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the plan."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
sys.dont_write_bytecode = True
import plan
props = [json.loads(x) for x in open(os.path.join(here, "..", "properties.jsonl"))]
TECH = ("TLA+ specification model-checked with TLC; histories generated from it (and seeded random ones) replayed on "
        "the crate; recorded traces validated by TLC against spec/Trace.tla")
checks = []
for x in props:
    c = x["id"]
    q = plan.PLAN[c]
    models = ", ".join(sorted({m["module"] for m in q["models"]}))
    checks.append(dict(
        property=c, quick_cmd="bin/check " + c, thorough_cmd="VERIF_TIER=thorough bin/check " + c,
        evidence_file="evidence/%s.json" % c, technique=TECH, level="model_checking",
        level_note="Design model(s) %s checked exhaustively within the bounds of their configurations; the code is bound to the "
                   "specification by validating recorded traces of it, so beyond the replayed histories the assurance is that of "
                   "sampling. %sTrusted: TLC, the driver's projections (harness/src/main.rs), serde_json." % (models, plan.NOTES.get(c, ""))))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=[],
               notes="No hooks: every property is observed through the crate's public API. See DESIGN.md."),
          open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
