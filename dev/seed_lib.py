"""Builds and validates seeded bugs: python3 dev/seed_lib.py [ids]  (definitions in dev/seeds.py)"""
import os, subprocess, sys, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SEEDED = os.path.join(HERE, "..", "seeded")
DEMO = '''#!/bin/bash
# Builds demo.rs against the sources of the current directory, in a scratch directory, and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp -r "$repo/src/." "$work/src/"
# Private modules become reachable from the demonstration; nothing else changes.
find "$work/src" -name mod.rs -exec sed -i -E 's/^mod ([a-z_0-9]+);/pub(crate) mod \\1;/' {} +
rm -f "$work/src/lib.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<'T'
[package]
name = "auto-palette"
version = "0.1.0"
edition = "2021"

[dependencies]
num-traits = "0.2.15"
rand = "0.8.5"
thiserror = "1.0.38"

[workspace]
T
{ printf '#![allow(warnings)]\\nmod color;\\nmod image;\\nmod math;\\nmod swatch;\\n'; cat "$here/demo.rs"; } > "$work/src/main.rs"
cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q @REL@ || exit 3
timeout 120 "$work/target/@DIR@/auto-palette"
'''
def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
def one(s):
    d = os.path.join(SEEDED, s["id"]); os.makedirs(d, exist_ok=True)
    rel = s.get("release", False)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@REL@", "--release" if rel else "").replace("@DIR@", "release" if rel else "debug"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip())
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); r = os.path.join(t, "r")
    try:
        sh(f"cp -a /repo {r}", "/")
        clean = sh(f"bash {d}/demo.sh", r)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); src = open(p).read()
            n = src.count(old)
            if n != 1: return s["id"], f"edit matches {n}: {old[:50]!r}"
            open(p, "w").write(src.replace(old, new))
        diff = sh("git diff", r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        for part in diff.split("diff --git ")[1:]:
            f = part.split(" b/")[1].split("\n")[0]
            old = sh(f"git show f9a0549:{f}", "/repo").stdout.splitlines()
            for x in part.splitlines():
                if x.startswith("-") and not x.startswith("---") and x[1:] not in old: return s["id"], f"BAD not an original line: {x}"
        b = sh("cargo test --offline 2>&1", r)
        fails = [l for l in b.stdout.splitlines() if l.endswith("FAILED") or l.startswith("error")]
        bug = sh(f"bash {d}/demo.sh", r)
        ok = clean.returncode == 0 and bug.returncode != 0 and bug.returncode not in (2, 3) and not fails and b.returncode == 0
        return s["id"], ("ok" if ok else "BAD") + f" clean={clean.returncode} bug={bug.returncode} {clean.stderr[-900:] if clean.returncode else ''} tests={fails[:4] or b.stdout[-600:] if (fails or b.returncode) else 'pass'} | {bug.stderr.strip().splitlines()[:2]}"
    finally:
        shutil.rmtree(t)
if __name__ == "__main__":
    from seeds import SEEDS
    want = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, [s for s in SEEDS if not want or s["id"] in want]): print(i, m)
