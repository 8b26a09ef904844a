#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seed descriptions (python3 tools/seeds.py), and with `test [ids]` confirms each one in a
scratch copy of /repo: it builds, the existing tests pass, the demonstration passes before and fails after."""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = open(os.path.join(HERE, "tools/demo_common.rs")).read()
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds a small program against it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bumaga = { path = "$repo" }
serde_json = "1.0"
[profile.dev]
debug = 0
T
cd "$work" && CARGO_TARGET_DIR="$work/t" cargo run -q --offline
'''
SEEDS = []


def seed(id, prop, file, old, new, main, needs, breaks, more=()):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), main=main, needs=needs, breaks=breaks))


for f in sorted(glob.glob(os.path.join(HERE, "tools/seeds_*.py"))):
    exec(open(f).read())


def sh(cmd, cwd=None, env=None, timeout=400):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def write(s, work):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    sh("git checkout -q -- .", cwd=work)
    for f, a, b in s["edits"]:
        p = os.path.join(work, f)
        t = open(p).read()
        if t.count(a) != 1:
            raise SystemExit(f"{s['id']}: {t.count(a)} occurrences in {f} of {a!r}")
        n = t[:t.index(a)].count("\n") + 1
        blame = sh(f"git blame -s -L {n},{n + a.count(chr(10))} {f}", cwd=os.environ.get("SEED_REPO", "/repo"))[1]
        old_lines = a.split("\n"); 
        foreign = [l for l in blame.splitlines() if "a2a454a" not in l]
        if foreign:
            print(f"note {s['id']}: touches later lines: {foreign}")
        open(p, "w").write(t.replace(a, b))
    diff = sh("git diff", cwd=work)[1]
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    sh("git checkout -q -- .", cwd=work)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(COMMON + s["main"])
    shutil.copy(os.path.join(HERE, "tools/demo.lock"), os.path.join(d, "Cargo.lock"))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def test(s, work):
    d = os.path.join(HERE, "seeded", s["id"])
    c0, o0 = sh(f"bash {d}/demo.sh", cwd=work)
    c, o = sh(f"git apply {d}/patch.diff", cwd=work)
    if c: return f"patch: {o}"
    try:
        c, o = sh("cargo test --workspace --offline 2>&1 | grep -E 'test result|FAILED|error[:[]' | head -5", cwd=work)
        c1, o1 = sh(f"bash {d}/demo.sh", cwd=work)
    finally:
        sh("git checkout -q -- .", cwd=work)
    ok = c0 == 0 and c1 != 0 and "78 passed; 0 failed" in o and "error[" not in o and "error:" not in o
    return f"{'OK' if ok else 'BAD'} before={c0} after={c1} tests={o.strip()[:120]} | {o1.strip()[-160:]}" + ("" if c0 == 0 else o0[-600:])


if __name__ == "__main__":
    work = "/tmp/seedwork"
    ids = sys.argv[2:]
    shutil.rmtree(work, ignore_errors=True)
    sh(f"cp -a {os.environ.get('SEED_REPO', '/repo')} {work}")
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        write(s, work)
        if len(sys.argv) > 1 and sys.argv[1] == "test":
            print(s["id"], s["prop"], test(s, work), flush=True)
    shutil.rmtree(work, ignore_errors=True)
