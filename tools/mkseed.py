#!/usr/bin/env python3
"""Writes and confirms a planted bug under /verif/seeded/<id>/ from a spec file tools/seed/<id>.py.
A spec defines PROPERTY, FILE, OLD, NEW (or EDITS=[(file,old,new),..]), NEEDS, BREAKS and DEMO (body of main.rs).
Applies the patch to /repo, runs build, tests, the demo with and without it, and undoes it."""
import sys, os, subprocess, json, shutil, runpy
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = '''#!/bin/bash
# Builds main.rs against /repo's crates (offline; approx_cmp.rs stands in for the git dependency) and runs it.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/vendor/approx_cmp/src" "$d/.cargo" "$d/src"
cp "$here/approx_cmp.rs" "$d/vendor/approx_cmp/src/lib.rs"
cp "$here/approx_cmp.toml" "$d/vendor/approx_cmp/Cargo.toml"
echo '{"files":{},"package":null}' > "$d/vendor/approx_cmp/.cargo-checksum.json"
cp "$here/main.rs" "$d/src/main.rs"; cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cglinalg = { path = "/repo" }
cglinalg_core = { path = "/repo/crates/cglinalg_core" }
cglinalg_numeric = { path = "/repo/crates/cglinalg_numeric" }
cglinalg_trigonometry = { path = "/repo/crates/cglinalg_trigonometry" }
cglinalg_transform = { path = "/repo/crates/cglinalg_transform" }
approx_cmp = { git = "https://github.com/lambdaxymox/approx_cmp/", version = "1.0.0" }
[workspace]
X
cat > "$d/.cargo/config.toml" <<X
[source."git+https://github.com/lambdaxymox/approx_cmp/"]
git = "https://github.com/lambdaxymox/approx_cmp/"
replace-with = "standin"
[source.standin]
directory = "$d/vendor"
[net]
offline = true
X
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet
'''
HEAD = '#![allow(unused)]\nuse cglinalg::*;\nuse cglinalg_core::*;\nuse cglinalg_transform::*;\nuse cglinalg_trigonometry::*;\n'
def main(i):
    m = runpy.run_path(os.path.join(HERE, "seed", i + ".py"))
    edits = m.get("EDITS") or [(m["FILE"], m["OLD"], m["NEW"])]
    assert sh("git -C /repo status --porcelain -uno").stdout == "", "repo dirty"
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in edits:
            p = "/repo/crates/" + f; t = open(p).read()
            nth = 0
            if isinstance(o, tuple): o, nth = o
            c = t.count(o)
            assert c >= 1 and (c == 1 or isinstance(nth, int) and nth < c), (i, f, c)
            if c > 1 and nth == 0 and not m.get("FIRST"): raise SystemExit("%s: %d matches in %s" % (i, c, f))
            k = -1
            for _ in range(nth + 1): k = t.index(o, k + 1)
            open(p, "w").write(t[:k] + n + t[k + len(o):])
        open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(HEAD + m["DEMO"])
        shutil.copy(V + "/harness/vendor/approx_cmp/src/lib.rs", d + "/approx_cmp.rs")
        shutil.copy(V + "/harness/vendor/approx_cmp/Cargo.toml", d + "/approx_cmp.toml")
        json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.copy(V + "/tools/seed/Cargo.lock.txt", d + "/Cargo.lock.txt")
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout
        t = sh("bash /opt/vp/test.sh /tmp/mkseed.json"); assert t.returncode == 0, t.stdout
        r = sh("cd /repo && bash %s/demo.sh" % d)
        ok = r.returncode != 0 and "error" not in r.stdout.split("panicked")[0]
        print(i, "patched demo exit", r.returncode, r.stdout[-300:].replace("\n", " | "))
        if not ok: raise SystemExit("patched demo: " + r.stdout[-3000:])
        c = sh("python3 %s/check.py %s" % (V, m["PROPERTY"])) if "--check" in sys.argv else None
        if c: print(i, "CHECK", m["PROPERTY"], "exit", c.returncode, "\n   ".join([""] + c.stdout.splitlines()[-6:]))
    finally:
        sh("git -C /repo checkout -- .")
    if "--fast" not in sys.argv:
        r = sh("cd /repo && bash %s/demo.sh" % d)
        print(i, "clean demo exit", r.returncode)
        if r.returncode: raise SystemExit(r.stdout[-3000:])
for a in sys.argv[1:]:
    if not a.startswith("-"): main(a)
