#!/usr/bin/env python3
"""Regenerates MANIFEST.json: one check per property with a harness package."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
notes = {
 "C20": "Hashes are an arbitrary function of the key (uninterpreted), so every collision pattern among the keys used is covered.",
 "C21": "The level generator's draws are symbolic, so every level outcome is covered.",
 "C23": "The hash is an arbitrary function of the value (uninterpreted).",
 "C24": "The digest is an arbitrary function of the text hashed; ring points are assumed distinct.",
 "C25": "Interleavings at every lock operation are enumerated as decision variables for 2-3 threads of 1-2 calls; data races are decided by happens-before over the recorded accesses; racing or deadlocking schedules are replayed natively (go -race with forced schedule).",
 "C29": "The digest is an arbitrary function of its input (uninterpreted), confirmed natively against crypto/sha512.",
}
default_note = ("Bounded: every value of the symbolic inputs (keys, positions, values, operation choices) within the sizes and history "
  "lengths listed under coverage.harnesses[].bounds; the functions executed are re-translated from /repo on each run. "
  "Trusts go/ssa, the interpreter's Go semantics (sampled paths are re-run natively and compared) and z3 (sampled queries re-decided by cvc5). "
  "Every reported counterexample has been reproduced by the natively compiled code.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isdir(f"{root}/h/p/{i.lower()}"):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by z3 (SMT), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": (notes[i] + " " if i in notes else "") + default_note,
        })
    else:
        na.append({"property": i, "reason": "Not claimed yet: no harness has been built for it."})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every harness uses gostl's public API. See DESIGN.md; KNOWN_FINDINGS.txt lists known and fixed defects."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
