#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T = "bounded symbolic model checking of the compiled MIR (Kani codegen -> CBMC symbolic execution -> SAT), counterexamples replayed natively"
na = dict(NOT_APPLICABLE)
for i in ids:
    if i not in PROPS and i not in na:
        na[i] = "check not built yet"
json.dump(dict(
    version=1,
    setup_cmd="python3 run.py --setup",
    hooks=dict(guard="none", enable="no hooks: the checks use only the crate's public API", source_commits=[]),
    checks=[dict(
        property=i,
        quick_cmd="python3 run.py %s" % i,
        thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
        technique=PROPS[i].get("technique", T),
        level="model_checking",
        level_note=PROPS[i].get("note", "The solver decides every assertion for all values within the bounds; loop bounds are themselves checked by "
                   "unwinding assertions. Trusted: kani-compiler, CBMC, the SAT solver. Bounds: " + PROPS[i]["bounds"]),
    ) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason=na[i]) for i in ids if i in na],
    notes="See DESIGN.md; known_findings.txt lists repaired defects.",
), open("/verif/MANIFEST.json", "w"), indent=1)
