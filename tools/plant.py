#!/usr/bin/env python3
"""Plant bugs: turn a batch file (SEEDS = [dict(id, prop, edits, needs, breaks, demo)]) into /verif/seeded/<id>/
and confirm each one in a scratch copy of /repo: it builds, the stable tests pass, the demonstration passes
without the change and fails with it.   plant.py BATCH.py [id ...]"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

SEEDED = pathlib.Path("/verif/seeded")
DEMO_SH = """#!/bin/bash
# exit 0: the property holds in the cases of demo.rs; nonzero: it does not
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$scratch/Cargo.lock"
cat > "$scratch/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
geom3d = { path = "$repo" }
EOF
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$scratch/target"
cd "$scratch"
cargo build --offline -q 2> build.log || { cat build.log; exit 3; }
timeout 60 ./target/debug/demo "$scratch"
"""
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


def one(seed):
    d = SEEDED / seed["id"]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="plant."))
    try:
        repo = scratch / "repo"
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        for file, old, new in seed["edits"]:
            p = repo / file
            t = p.read_text()
            n = t.count(old)
            if n != 1:
                return seed["id"], f"edit of {file} matches {n} times: {old[:50]!r}"
            p.write_text(t.replace(old, new))
        patch = subprocess.run(["git", "-C", str(repo), "diff"], capture_output=True, text=True).stdout
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(patch)
        (d / "demo.rs").write_text(seed["demo"])
        (d / "demo.sh").write_text(DEMO_SH)
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": seed["prop"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, indent=1) + "\n")
        r = subprocess.run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], cwd=repo, env=ENV, capture_output=True, text=True)
        passed = sum(l.rstrip().endswith("... ok") for l in r.stdout.splitlines())
        if r.returncode or passed != 14:
            return seed["id"], f"tests: rc {r.returncode}, {passed} passed\n{r.stdout[-800:]}{r.stderr[-800:]}"
        with_ = subprocess.run(["bash", str(d / "demo.sh")], cwd=repo, capture_output=True, text=True)
        without = subprocess.run(["bash", str(d / "demo.sh")], cwd="/repo", capture_output=True, text=True)
        if without.returncode or not with_.returncode or with_.returncode == 3:
            return seed["id"], f"demo: without {without.returncode} with {with_.returncode}\n{without.stdout[-600:]}{without.stderr[-600:]}\n--- with\n{with_.stdout[-600:]}{with_.stderr[-600:]}"
        return seed["id"], "confirmed: " + (with_.stderr.strip().splitlines() or ["?"])[0][:60] + " | " + " ".join(with_.stderr.strip().splitlines()[1:2])[:100] + f" rc {with_.returncode}"
    finally:
        shutil.rmtree(scratch)


seeds = runpy.run_path(sys.argv[1])["SEEDS"]
if len(sys.argv) > 2:
    seeds = [s for s in seeds if s["id"] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, seeds):
        print(i, m, flush=True)
        if not m.startswith("confirmed"):
            shutil.rmtree(SEEDED / i, ignore_errors=True)
