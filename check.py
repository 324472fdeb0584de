#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current working tree.

Builds /repo's crates unmodified together with the contracts of the property (harness/vcgen), lets the
verifier generate and discharge every obligation, and for the properties that have them runs the Kani
contracts (harness/kani_contracts). Writes evidence/<property>.json.

exit 0  every obligation discharged (apart from listed known findings)
exit 1  an obligation failed or was not discharged: VIOLATION line, replay file written; the line ends with
        no-failing-input-found when no input fails the contract on the compiled code
exit 2  no answer: the build failed, or an obligation set was empty
"""
import json, os, subprocess, sys, time, shutil, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "tools"))
import kani_run

TRUSTED = [
    "rustc and LLVM (the verified artefact is the compiled generic code of /repo, monomorphised at the verifier's scalar type)",
    "harness/vcgen: term construction, path enumeration, normal forms over the rational functions, translation to SMT-LIB",
    "z3 4.8.12 for the obligations the normal forms do not close",
    "real arithmetic stands for f32/f64 arithmetic: rounding, overflow, NaN and infinities are outside the proofs",
    "axioms of the elementary functions (sin, cos, tan, atan2, sqrt, exp, ln ...) listed in harness/vcgen/src/norm.rs and smt.rs",
    "harness/vendor/approx_cmp: stand-in for the scalar approximate comparisons of the missing git dependency",
]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.chdir(HERE)
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("out", exist_ok=True)
    feat = prop.lower()
    known = [k for k in json.load(open("known_findings.json"))["findings"] if k["property"] == prop]
    kf = [k for k in known if k["status"] == "known"]
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    rc, result, violations, errors = 0, {}, [], []
    has_vcgen = os.path.exists(os.path.join(HARNESS, "vcgen/src/contracts", feat + ".rs"))
    if has_vcgen:
        b = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", feat], cwd=os.path.join(HARNESS, "vcgen"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode != 0:
            print(b.stdout[-6000:])
            print("check: the build of /repo with the contracts failed; no answer")
            sys.exit(2)
        out = os.path.join(HERE, "out", prop + ".json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [os.path.join(HARNESS, "target/debug/vcgen"), "--property", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--wall", "2400" if tier == "thorough" else "420"]
        if kf:
            cmd += ["--known", ",".join(k["id"] for k in kf)]
        if tier == "thorough":
            cmd += ["--fuzz-info", "1"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3000 if tier == "thorough" else 600)
        except subprocess.TimeoutExpired:
            print("check: the verifier ran out of time; no answer")
            sys.exit(2)
        sys.stdout.write(r.stdout[-4000:])
        if not os.path.exists(out):
            print("check: the verifier ended without a result (exit %d); no answer" % r.returncode)
            sys.exit(2)
        result = json.load(open(out))
        errors += result["errors"]
        violations += result["violations"]
    kres = kani_run.run(prop, tier, [k["id"] for k in kf])
    if kres:
        errors += kres["errors"]
        violations += kres["violations"]
    hits = dict(result.get("known_hits", {}))
    for k, n in (kres["known_hits"] if kres else {}).items():
        hits[k] = hits.get(k, 0) + n
    obligations = result.get("obligations", 0) + (kres["obligations"] if kres else 0)
    discharged = result.get("discharged", 0) + (kres["discharged"] if kres else 0)
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "checker_cmd": "python3 /verif/check.py " + prop,
        "trusted_base": TRUSTED,
        "functions_under_contract": result.get("functions", []),
        "contracts": result.get("contracts", 0),
        "named_obligations": result.get("named_obligations", 0),
        "paths": result.get("paths", 0),
        "infeasible_paths": result.get("infeasible_paths", 0),
        "discharged_by_backend": result.get("by_backend", {}),
        "solver_calls": result.get("solver_calls", 0),
        "solver_seconds": result.get("solver_seconds", 0),
        "known_finding_hits": hits,
        "per_contract": result.get("per_contract", []),
    }
    if result.get("ground_f64"):
        cov["bounded_ground_f64_evaluations"] = result["ground_f64"]
    if result.get("restricted"):
        cov["bounded_in_this_tier"] = {"contracts": result["restricted"], "bound": "paths on which at most 5 component comparisons fail; the thorough tier takes every path"}
    if kres:
        cov["kani"] = kres["coverage"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
        "assumptions": [
            "machine arithmetic is treated as exact real arithmetic in the vcgen obligations (no rounding, overflow, NaN or infinity)",
            "elementary functions are assumed to satisfy the identities listed in DESIGN.md; their libm implementations are not verified",
            "the approx_cmp crate is assumed to implement its documented scalar comparisons",
            "callees inside /repo are not assumed: their bodies are executed symbolically as part of the caller's obligations",
        ] + (kres["assumptions"] if kres else []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    lines = []
    for i, v in enumerate(violations):
        path = os.path.join(HERE, "out", "replay-%s-%s.json" % (prop, hashlib.sha1(v["contract"].encode()).hexdigest()[:10]))
        v = dict(v, property=prop, how_to_rerun="python3 /verif/check.py " + prop)
        json.dump(v, open(path, "w"), indent=1)
        for f in v["fails"][:4]:
            print("FAILED obligation: %s | %s | %s: %s" % (v["contract"], f["function"], f["obligation"], f["detail"][:300]))
        if v.get("replay"):
            print("  on the compiled code: inputs %s observed %s" % (json.dumps(v["replay"]["inputs"])[:500], v["replay"]["observed"][:2]))
        lines.append((0 if v.get("replay") else 1, "VIOLATION property=%s replay=%s%s" % (prop, path, "" if v.get("replay") else " no-failing-input-found")))
    json.dump(ev, open(os.path.join("evidence", prop + ".json"), "w"), indent=1)
    for k in kf:
        if hits.get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    lines.sort()
    if lines:
        # a violation with a concrete failing input decides; the others are only listed when there is none
        if lines[0][0] == 0:
            lines = [l for l in lines if l[0] == 0]
        for _, l in lines[:10]:
            print(l)
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("ERROR", e)
        sys.exit(2)
    if obligations == 0 or obligations != discharged:
        print("ERROR obligations %d discharged %d" % (obligations, discharged))
        sys.exit(2)
    print("%s: %d obligations discharged, %.1f s" % (prop, discharged, time.time() - t0))
    sys.exit(0)


main()
