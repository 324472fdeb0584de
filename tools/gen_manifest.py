#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: a check for every property that has contracts."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = {"C01", "C03", "C04", "C08", "C10", "C11", "C19", "C20"}
NOTE = {
    "C20": "Kani proves every obligation for every f32 and f64 argument, bit-exact, assuming of libm only the special values and ranges of IEEE 754 / C Annex F (special.rs, model_*); the signs of infinite results of cosh and sinh that depend on sin and cos of the argument are evaluated on drawn inputs only (bounded).",
    "C19": "Kani proves the contract of every operation of the scalar traits of the primitive types on every input; the elementary functions behind the float operations are uninterpreted stand-ins (the contract is that the named std function is called with the given arguments), and log, recip and powi of the floats are evaluated on drawn inputs only (bounded).",
}
REALS = "Every obligation is proved for all inputs over the reals; rounding, overflow, NaN and infinities are outside, as are the libm functions themselves and the approx_cmp crate (stand-in)."
VCGEN = "contracts on the real generic code, verification conditions generated by running that code on symbolic scalars, discharged by normal forms and z3"
KANIT = "Kani contracts on the machine types for what is not generic in the scalar"
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    id = p["id"]
    if os.path.exists(os.path.join(here, "harness/vcgen/src/contracts", id.lower() + ".rs")) or id in KANI:
        checks.append({
            "property": id,
            "quick_cmd": "python3 /verif/check.py " + id,
            "thorough_cmd": "python3 /verif/check.py " + id + " --thorough",
            "evidence_file": "evidence/%s.json" % id,
            "technique": "; ".join(([VCGEN] if os.path.exists(os.path.join(here, "harness/vcgen/src/contracts", id.lower() + ".rs")) else []) + ([KANIT] if id in KANI else [])),
            "level": "proof",
            "level_note": NOTE.get(id, REALS),
        })
    else:
        na.append({"property": id, "reason": "contracts not written yet"})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the contracts use only public items, and the code under verification is compiled unmodified."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
