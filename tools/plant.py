#!/usr/bin/env python3
"""plant.py DEFS.py [id...]: turns bug definitions into /verif/seeded/<id>, keeping
only those that build, pass the tests and are shown by their demonstration.

DEFS.py defines BUGS, a list of dicts: id, property, file, edits [(old, new)],
needs, breaks, and main (Rust source of the demonstration) or script (bash)."""
import json, os, re, shutil, subprocess, sys

ROOT = "/tmp/plant"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.pop("CARGO_TARGET_DIR", None)
DEMO = """#!/bin/bash
# Run in the repository's root: exit 0 if the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n\\n[dependencies]\\ntext_encoding = { path = "%s" }\\n\\n[workspace]\\n' "$repo" > "$tmp/Cargo.toml"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS
cd "$tmp" || exit 3
cargo build --offline -q 2>"$tmp/log" || { cat "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
"""

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True)

def tests(repo):
    o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo)
    t = o.stdout
    p = sum(int(x) for x in re.findall(r"(\d+) passed", t))
    f = sum(int(x) for x in re.findall(r"(\d+) failed", t))
    return o.returncode, p, f, o

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    repo = ROOT + "/repo"
    if not os.path.exists(repo):
        os.makedirs(ROOT, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", repo])
    sh("git fetch -q /repo && git checkout -q -f FETCH_HEAD", repo)
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -f .", repo)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p, newline="").read()
            if s.count(old) < 1:
                print(b["id"], "edit does not apply:", old[:60]); ok = False; break
            n = b.get("nth", 0)
            parts = s.split(old)
            if len(parts) > 2 and "nth" not in b:
                print(b["id"], "edit is ambiguous:", old[:60]); ok = False; break
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w", newline="").write(s)
        if not ok:
            continue
        d = "/tmp/plant/out/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        if "main" in b:
            open(d + "/demo.sh", "w").write(DEMO)
            open(d + "/main.rs", "w").write(b["main"].strip() + "\n")
        else:
            open(d + "/demo.sh", "w").write(b["script"].lstrip())
            for n, t in b.get("files", {}).items():
                open(d + "/" + n, "w").write(t.lstrip())
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, p, f, o = tests(repo)
        if rc != 0 or f or p < 220:
            fails = re.findall(r"^test (\S+) \.\.\. FAILED", o.stdout, re.M)
            print(b["id"], "tests: rc", rc, "passed", p, "failed", f, fails[:4], o.stderr[-300:] if p == 0 else ""); continue
        bad = sh("timeout 300 bash %s/demo.sh" % d, repo)
        sh("git checkout -q -f .", repo)
        good = sh("timeout 300 bash %s/demo.sh" % d, repo)
        if good.returncode != 0 or bad.returncode in (0, 3):
            print(b["id"], "demo: clean", good.returncode, "patched", bad.returncode, good.stdout[-300:], good.stderr[-300:], bad.stdout[-400:]); continue
        dst = "/verif/seeded/" + b["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b["id"], "kept (demo exit %d)" % bad.returncode)

main()
