#!/usr/bin/env python3
"""Plants the bugs described in a Python file: plant.py BUGS.py [id...]

Each bug is dict(id, property, needs, breaks, edits=[(file, old, new)], main=Rust source of a
demonstration that exits non-zero when it sees the bug). It is kept under seeded/ only if it
compiles, passes the existing tests and the demonstration tells it from the original."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
DEMO = '''#!/bin/bash
# Run in the repository: exits 0 where the property holds on this demonstration.
exec python3 - "$(cd "$(dirname "$0")" && pwd)" "$PWD" <<'PY'
import os, shutil, subprocess, sys, tempfile
here, repo = sys.argv[1:]
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/src")
    shutil.copy(here + "/main.rs", d + "/src/main.rs")
    open(d + "/Cargo.toml", "w").write(f\'\'\'[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
narrow = {{ path = "{repo}" }}
narrow-ffi = {{ path = "{repo}/narrow-ffi" }}
[workspace]
\'\'\')
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "run", "--offline", "--quiet"], cwd=d, env=env, timeout=280)
    sys.exit(1 if r.returncode else 0)
PY
'''


def sh(cmd, cwd=WT, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def reset():
    sh(["git", "checkout", "-q", "--", "."])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    if not os.path.isdir(WT):
        shutil.copytree("/repo", WT, symlinks=True)
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        reset()
        sh(["git", "fetch", "-q", "/repo", "HEAD"])
        sh(["git", "checkout", "-q", "FETCH_HEAD"])
        d = os.path.join("/tmp/plant", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/main.rs", "w").write(b["main"])
        open(d + "/demo.sh", "w").write(DEMO)
        r = sh(["bash", d + "/demo.sh"])
        if r.returncode:
            print(b["id"], "DEMO FAILS ON THE ORIGINAL\n" + r.stdout[-3000:])
            continue
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], f, "matches", s.count(old), "times:", old[:60])
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh(["git", "diff"]).stdout
        r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--locked"])
        if r.returncode:
            print(b["id"], "TESTS FAIL\n" + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l or "warning" in l or "-->" in l)[:1500])
            continue
        r = sh(["bash", d + "/demo.sh"])
        if not r.returncode:
            print(b["id"], "DEMO DOES NOT SEE IT")
            continue
        if "panicked" not in r.stdout and "demo" not in r.stdout and "signal" not in r.stdout:
            print(b["id"], "demo output:", r.stdout[-500:])
        out = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        for f, t in (("patch.diff", diff), ("demo.sh", DEMO), ("main.rs", b["main"]),
                     ("meta.json", json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")):
            open(os.path.join(out, f), "w").write(t)
        print(b["id"], "planted")
    reset()


main()
