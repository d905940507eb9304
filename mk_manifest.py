#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below (run by hand; never at check time)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
CLAIMED = {}
def c(i, level, technique, note):
    CLAIMED[i] = (level, technique, note)
c("C01", "exploration", "bounded exhaustive enumeration of constraint-system programs run on the real prover and verifier",
  "Every constraint-system program up to the stated length over the operation alphabet, plus all shape combinations; reference interpreter over plain field values. Curve is a 60-bit prime-order toy cycle (same generic code) plus conformance on pallas/vesta/secp.")
c("C02", "fault_enumeration", "exhaustive enumeration of single prover deviations against the real verifier, with an algebraic reference prover bound to the code by differential replay",
  "Every violated constraint/gate x every single deviation (message, generator) of an algebraic prover that solves for the best possible remaining messages. Reference verification equation is compared with the implementation's on every case. Knowledge soundness beyond single deviations is assumed (discrete log, Fiat-Shamir).")
c("C03", "fault_enumeration", "exhaustive single-fault enumeration over statement and proof components on the real verifier",
  "Every component of proof, statement and parameters x a replacement alphabet, and every bit of the encodings.")
c("C04", "fault_enumeration", "exhaustive enumeration of malformed encodings and shapes on the real decoder and verifier",
  "All length combinations, identities, flags, truncations and structural bytes for the statement catalogue.")
c("C05", "exploration", "bounded exhaustive enumeration of batches on the real batch verifier against the conjunction of single verifications",
  "All sequences up to four entries over an alphabet of valid and invalid tuples of several sizes, plus constructed cancelling sets.")
exec(open(os.path.join(here, "manifest_more.py")).read()) if os.path.exists(os.path.join(here, "manifest_more.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CLAIMED:
        lv, t, n = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": lv, "level_note": n})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness owns merlin and rand through [patch.crates-io] in /verif/harness and everything else through public API."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
