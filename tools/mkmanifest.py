#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and tools/checks.py."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from checks import CHECKS  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="./check.py setup",
    hooks=dict(guard="cfg md_recover_verif",
               enable='RUSTFLAGS="--cfg md_recover_verif" cargo build --offline in /verif/harness, whose path '
                      "dependency /verif/harness/lib builds /repo/src/main.rs as a library",
               source_commits=["7dec5e2", "69033aa"]),
    checks=[dict(
        property=p["id"],
        quick_cmd="./check.py " + p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check.py " + p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=CHECKS[p["id"]].get("technique", "TLA+ specification model-checked with TLC; executions of the real "
                                      "code validated against it by TLC"),
        level="model_checking",
        level_note=CHECKS[p["id"]]["note"],
    ) for p in props if p["id"] in CHECKS],
    not_applicable=[dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in CHECKS],
)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
