#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess
from checks import CHECKS, NOT_APPLICABLE
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add a guarded"], capture_output=True, text=True).stdout.split()
m = dict(
    version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="cfg(bip324_verif)", enable="RUSTFLAGS='--cfg bip324_verif' when the harness crate `proto` is built (build_ir.sh, check.py); without it C02 runs without the arbitrary-index harnesses", source_commits=hook),
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                 evidence_file=f"evidence/{p['id']}.json",
                 technique="bounded symbolic execution of the compiled code (LLVM IR) with z3 deciding every branch and assertion; native replay of counterexamples",
                 level="model_checking",
                 level_note="Holds for every value within: " + CHECKS[p["id"]]["bounds"] + ". Not covered: " + CHECKS[p["id"]]["outside"] + ". Assumes: " + "; ".join(CHECKS[p["id"]]["assumptions"]) + ".")
            for p in props if p["id"] in CHECKS],
    not_applicable=[dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]) for p in props if p["id"] not in CHECKS],
    notes="See DESIGN.md. known-findings.txt lists repaired defects.",
)
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
