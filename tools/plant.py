"""Plants bugs: writes seeded/<id>/ after confirming, in a scratch copy of /repo, that the change compiles,
passes the existing tests, and is shown by its demonstration. Used as a library while developing."""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant-wt"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_PROFILE_DEV_DEBUG="line-tables-only")

HEAD = """#!/bin/bash
# Run in the repository: exit 0 when the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
set -e
"""
LIB = HEAD + """rustc -A warnings --edition 2021 --crate-type rlib --crate-name minifier src/lib.rs --out-dir "$t"
rustc -A warnings --edition 2021 "$here/demo.rs" --extern minifier="$t/libminifier.rlib" -o "$t/demo"
cd "$t"
timeout 60 ./demo
"""
HTML = HEAD + """CARGO_TARGET_DIR="$t/target" cargo build -q --offline --lib --no-default-features --features html
rustc -A warnings --edition 2021 "$here/demo.rs" --extern minifier="$t/target/debug/libminifier.rlib" -L dependency="$t/target/debug/deps" -o "$t/demo"
cd "$t"
timeout 60 ./demo
"""
CLI = HEAD + """CARGO_TARGET_DIR="$t/target" cargo build -q --offline --bin minifier
mkdir "$t/work"
cd "$t/work"
minifier="$t/target/debug/minifier"
source "$here/demo.inc"
"""
SCRIPTS = {"lib": LIB, "html": HTML, "cli": CLI}


def sh(cmd, cwd=WT, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(name, prop, edits, demo, needs, what, kind="lib"):
    """edits: [(file, old, new)]"""
    if not os.path.isdir(WT):
        subprocess.run(["cp", "-a", "/repo", WT], check=True)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    for path, old, new in edits:
        p = os.path.join(WT, path)
        s = open(p, encoding="utf-8").read()
        n = s.count(old)
        if n != 1:
            print(f"{name}: {path} has it {n} times: {old!r}")
            return False
        open(p, "w", encoding="utf-8").write(s.replace(old, new))
    patch = sh("git diff").stdout
    d = os.path.join(ROOT, "seeded", name)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(SCRIPTS[kind])
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.inc" if kind == "cli" else "demo.rs"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = sh("touch src/*.rs src/*/*.rs; cargo test --workspace --all-features --offline 2>&1; cargo check --lib --no-default-features --offline 2>&1; cargo check --offline 2>&1")
    ok = "FAILED" not in r.stdout and "error" not in r.stdout and r.stdout.count("test result: ok") >= 3
    bad = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    good = sh(f"bash {d}/demo.sh")
    ok2 = ok and bad.returncode != 0 and good.returncode == 0
    print(f"{name}: {'planted' if ok2 else 'REJECTED'} tests={'ok' if ok else 'FAIL'} demo with={bad.returncode} without={good.returncode}")
    if not ok2:
        if not ok:
            print("\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:1500])
        elif good.returncode:
            print(good.stdout[-1500:])
        shutil.rmtree(d)
    return ok2
