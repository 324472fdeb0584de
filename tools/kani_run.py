"""Runs the Kani contracts of a property (harness/kani_contracts) and the ground evaluations of the same
contracts on the compiled code."""
import os, re, shutil, signal, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CRATE = os.path.join(HERE, "harness", "kani_contracts")
Z3 = ["--cbmc-args", "--fpa", "--z3"]
NODEF = ["--no-memory-safety-checks", "--no-overflow-checks", "--no-undefined-function-checks", "--no-assertion-reach-checks"]
# the memory checks stay on where the property is about reaching other memory
MEM = ["--no-overflow-checks", "--no-undefined-function-checks", "--no-assertion-reach-checks"]
# property: [(harness filters of the quick tier, further ones of the thorough tier, kani options, cbmc options)]
# the scalar-left operators: the narrow types always have to be proved; for the wide ones z3's time varies, and
# one that is not finished in time is reported as evaluated on drawn inputs only (bounded), not as proved
NARROW = ["u8", "i8", "u16", "i16"]
WIDE = ["u32", "i32", "u64", "i64", "usize", "isize", "f32"]
WIDEST = ["f64", "u128", "i128"]
SOFT = re.compile(r"^(scalar_left::[td]_(%s)|whole::[qs]_[ui](32|64))::" % "|".join(WIDE + WIDEST))


def left(types, *fns):
    return ["scalar_left::%s::%s" % (t if t[1] == "_" else "t_" + t, f) for t in types for f in fns]


def whole(f):
    return ["whole::%s_%s::%s" % (k, t, f) for k in "qs" for t in ("u8", "i8", "u32", "i32", "u64", "i64")]


PLAN = {
    "C01": [(left(NARROW + WIDE, "c01") + left(WIDEST, "c01_vector_1", "c01_vector_2", "c01_point_1", "c01_point_2") + whole("c01"), left(WIDEST, "c01"), NODEF, Z3)],
    # no harness of its own: the contracts at drawn machine integers (whole::ring), next to vcgen's proofs
    "C02": [],
    "C05": [],
    "C03": [(["index::"], [], MEM, []), (["cast::"], [], NODEF, [])],
    "C04": [(left(["u8", "i8"], "c04") + left(NARROW[2:] + WIDE[:6], "c04_matrix_1x1", "c04_matrix_2x2", "c04_matrix_2x3", "c04_matrix_3x2") + left(["f32"] + WIDEST, "c04_matrix_1x1") + whole("c04"), left(NARROW + WIDE + WIDEST, "c04"), NODEF, Z3)],
    "C08": [(left(NARROW + WIDE, "c08") + whole("c08"), left(WIDEST, "c08"), NODEF, Z3)],
    "C10": [(["dual::"], [], NODEF, [])],
    "C11": [(left(NARROW + ["u32", "i32", "u64", "f32", "d_i8", "d_i16"], "c11") + whole("c11"), left(WIDE + WIDEST + ["d_i32", "d_f32", "d_i64", "d_f64"], "c11"), NODEF, Z3)],
    "C19": [(["numeric::float_", "numeric::int_", "numeric::cast_", "cast::"], [], NODEF, []), (["numeric::fdiv_"], [], NODEF, Z3)],
    "C20": [(["special::"], [], NODEF, [])],
}
# failures that are the primitive types' own behaviour and no part of a contract
BENIGN = re.compile(r"^(attempt to .* (with overflow|by zero|a remainder.*)|NaN on .*|arithmetic overflow on .*|attempt to divide by zero.*)$")
ASSUME = [
    "Kani contracts: rustc (Kani's pinned nightly), Kani 0.68's translation to GOTO and CBMC 6.11 (CaDiCaL or z3 4.8.12 behind it) are trusted",
    "Kani contracts: integer overflow panics are the primitive types' behaviour; a contract speaks about the calls that return (scalar-left products: about operands whose product is representable, where no overflow may occur)",
    "Kani contracts: the elementary functions of libm are uninterpreted stand-ins (numeric::*); the scalar-left operators are proved for every input at the machine types and shapes listed under harnesses, and evaluated on drawn inputs only (bounded) at the others and at those listed under not_finished",
]


def run(prop, tier, known=()):
    if prop not in PLAN:
        return None
    errors, violations, hits = [], [], {}
    t0 = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(HERE, "harness", "target_kani"))
    env.pop("RUSTFLAGS", None)
    PATH = env["PATH"]
    z3 = shutil.which("z3")
    if z3:
        env["VERIF_Z3"] = z3
    b = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=CRATE, env=dict(env, CARGO_TARGET_DIR=os.path.join(HERE, "harness", "target")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-3000:])
        return res(["the build of the Kani contracts failed"], [], 0, 0, {}, {})
    exe = os.path.join(HERE, "harness", "target", "debug", "kani_contracts")
    entries = [l.split()[1] for l in subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.startswith(prop + " ")]
    results, solver, unfinished = {}, 0.0, []
    for quick, more, opts, cbmc in PLAN[prop]:
        filters = quick + (more if tier == "thorough" else [])
        want = [e for e in entries if any(f in e for f in filters)]
        cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options"] + opts
        for f in filters:
            cmd += ["--harness", f]
        limit = 600 if tier == "thorough" else 45 if filters[0].startswith("scalar_left") else 240
        cmd += ["-j", "8", "--harness-timeout", "%ds" % limit, "--output-format", "terse"] + cbmc
        env.update(VERIF_Z3_LIMIT=str(limit), PATH=os.path.join(HERE, "tools", "zbin") + ":" + PATH)
        # in a process group of its own, so that nothing Kani started outlives it
        p = subprocess.Popen(cmd, cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out = p.communicate(timeout=7000 if tier == "thorough" else 600)[0]
        except subprocess.TimeoutExpired:
            errors.append("Kani ran out of time")
            continue
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        got, secs = parse(out)
        solver += secs
        if not got:
            print("\n".join(l for l in out.splitlines() if l.startswith("error"))[-2000:])
            errors.append("Kani gave no result (exit %d)" % p.returncode)
        results.update(got)
    # which of the contract's harnesses have a #[kani::proof] is read off Kani's own list of harnesses
    obligations = discharged = 0
    for h, (total, failed, cover, status) in sorted(results.items()):
        if status == "limit" and SOFT.match(h):
            unfinished.append(h)
            continue
        if status == "limit":
            # not discharged: reported, with a failing input if the compiled code gives one
            obligations += 1
            violations.append(viol(h, [("time or memory limit", h)], replay(exe, h, known)))
            continue
        if not cover and not failed:
            errors.append("Kani: %s: the end of the contract is not reachable (vacuous)" % h)
        bad = []
        for desc, where in failed:
            if BENIGN.match(desc) and "dual::" not in h and not re.search(r"::c0[148]_|^whole::", h):
                continue
            if "unwinding assertion" in desc or "is not currently supported" in desc or "unsupported" in desc.lower():
                bad.append((desc, where))
                continue
            k = re.search(r"\[known ([A-Za-z0-9-]+)\]", desc)
            if k and k.group(1) in known:
                hits[k.group(1)] = hits.get(k.group(1), 0) + 1
                continue
            if "::panics_" in h and not desc.startswith("contract:") and ("index out of bounds" in desc or "panic" in desc.lower() or "out of range" in desc or "unwrap" in desc or "assertion failed" in desc or "slice" in desc):
                continue
            bad.append((desc, where))
        obligations += total
        discharged += total - len(bad)
        if bad:
            violations.append(viol(h, bad, replay(exe, h, known)))
    # ground evaluations of every contract of the property on the machine types
    ground = 0
    n = 200000 if tier == "thorough" else 4000
    for e in entries:
        if any(v["contract"] == e for v in violations):
            continue
        r = native(exe, e, n, known)
        if r is None:
            errors.append("%s: the contract's native run ended without a result" % e)
        elif r[0] == "FAIL":
            violations.append({"contract": e, "fails": [{"obligation": r[1], "function": e, "kind": "ground", "detail": "fails on a drawn input"}], "replay": {"inputs": {"drawn": r[2]}, "observed": [r[1]]}})
        else:
            ground += int(r[1])
            if int(r[1]) == 0:
                errors.append("%s: no drawn input satisfied the precondition" % e)
    for k in known:
        if any(k in o for e in entries for o in [known_in(exe, e, k)]):
            hits[k] = hits.get(k, 0) + 1
    cov = {"harnesses": sorted(h for h in results if h not in unfinished), "not_finished": unfinished, "checks": obligations, "checks_discharged": discharged, "back_end": "CBMC 6.11 via Kani 0.68 (%s)" % ("z3" if any(p[3] for p in PLAN[prop]) else "CaDiCaL") if PLAN[prop] else "none: ground evaluations only", "solver_seconds": round(solver, 1), "wall_s": round(time.time() - t0, 1),
           "bounded_ground_evaluations": ground, "ground_contracts": len(entries), "known_finding_hits": hits}
    return res(errors, violations, obligations, discharged, cov, hits)


def known_in(exe, entry, k):
    if "C11" not in k or "c11" not in entry or "c11_complex" not in entry:
        return ""
    r = native(exe, entry, 200, ())
    return r[1] if r and r[0] == "FAIL" else ""


def native(exe, entry, n, known):
    try:
        r = subprocess.run([exe, entry, str(n)] + ["[known %s]" % k for k in known], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300).stdout.splitlines()
    except subprocess.TimeoutExpired:
        return None
    if not r:
        return None
    if r[0] == "FAIL":
        return ["FAIL", r[1] if len(r) > 1 else "", r[2] if len(r) > 2 else ""]
    return r[0].split()


def replay(exe, h, known):
    r = native(exe, h, 300000, known)
    if r and r[0] == "FAIL":
        return {"inputs": {"drawn": r[2]}, "observed": [r[1]]}
    return None


def viol(h, bad, rep):
    return {"contract": "kani " + h, "fails": [{"obligation": d, "function": w, "kind": "kani", "detail": d} for d, w in bad[:8]], "replay": rep}


def res(errors, violations, obligations, discharged, coverage, hits):
    return {"errors": errors, "violations": violations, "obligations": obligations, "discharged": discharged, "coverage": coverage, "assumptions": ASSUME, "known_hits": hits}


def parse(text):
    """harness -> (checks, [(failed check, where)], end reached, status) from Kani's terse output"""
    cur, out, th, secs = {}, {}, None, 0.0
    for l in text.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            th = m.group(1)
            cur[th] = m.group(2)
            out[m.group(2)] = [0, [], False, "limit"]
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            th = m.group(1)
            continue
        h = cur.get(th)
        if h is None:
            continue
        o = out[h]
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", l)
        if m:
            o[0] = int(m.group(2))
            o[3] = "done"
            continue
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            o[2] = m.group(1) == m.group(2) and m.group(1) != "0"
        m = re.match(r"Failed Checks: (.*)$", l)
        if m:
            o[1].append([m.group(1), ""])
        m = re.match(r"\s*File: (.*)$", l)
        if m and o[1]:
            o[1][-1][1] = m.group(1)
        m = re.match(r"Verification Time: ([0-9.]+)s", l)
        if m:
            secs += float(m.group(1))
        if "timed out" in l or "CBMC failed" in l or "out of memory" in l:
            o[3] = "limit"
    return {h: tuple(v) for h, v in out.items()}, secs


if __name__ == "__main__":
    import sys, json
    r = run(sys.argv[1], "thorough" if "--thorough" in sys.argv else "quick", sys.argv[2:3])
    print(json.dumps({k: v for k, v in r.items() if k != "assumptions"}, indent=1)[:6000])
