#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and writes them to seeded/.

  plant.py FILE [ID...]   FILE defines BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo)]
The demo is a Rust program that prints what calls give; what it prints on the
unchanged tree is kept beside it, and demo.sh compares.
"""
import json, os, re, runpy, shutil, subprocess, sys
SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
S = "/tmp/seed"
REPO = S + "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/target")
DEMO_SH = """#!/bin/bash
# Compares what calls give with what they have to give.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rphonetic = { path = "$repo", features = ["embedded"] }
serde_json = "1.0"
[workspace]
[profile.dev]
debug = false
X
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" REPO="$repo" SCRATCH="$d"
(cd "$d" && cargo build --offline --quiet) || exit 2
(cd "$d" && ulimit -v 8000000 && timeout 60 "$CARGO_TARGET_DIR/debug/demo" > out.txt) || { echo "the program failed"; exit 1; }
diff "$here/expected.txt" "$d/out.txt"
"""
def sh(cmd, cwd=REPO, timeout=600, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
def clean():
    sh("git checkout -q -- . && git clean -fdq src")
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    if not os.path.exists(REPO):
        os.makedirs(S, exist_ok=True); shutil.copytree("/repo", REPO, symlinks=True, ignore=shutil.ignore_patterns("target"))
    head = sh("git -C /repo rev-parse HEAD").stdout.decode().strip()
    sh("git fetch -q /repo HEAD && git reset -q --hard " + head); clean()
    fixed = set()
    for l in sh("git log --format=%H --grep=^fix:").stdout.decode().split(): fixed.add(l[:8])
    for b in bugs:
        if only and b["id"] not in only: continue
        d = os.path.join(SEEDED, b["id"])
        if not only and os.path.exists(d + "/patch.diff"): continue
        clean()
        w = os.path.join(S, "w"); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        open(w + "/demo.sh", "w").write(DEMO_SH); open(w + "/demo.rs", "w").write(b["demo"]); open(w + "/expected.txt", "w").write("")
        e = dict(ENV, DEMO_TARGET=S + "/demotarget")
        # What is expected: of the unchanged tree.
        p = sh("bash %s/demo.sh" % w, env=e)
        out = "".join(l[2:] + "\n" for l in p.stdout.decode().split("\n") if l.startswith("> "))
        if "error" in p.stdout.decode() and not out: print(b["id"], "DEMO DOES NOT BUILD OR RUN", p.stdout.decode()[-1500:]); continue
        open(w + "/expected.txt", "w").write(out)
        p = sh("bash %s/demo.sh" % w, env=e)
        if p.returncode != 0: print(b["id"], "DEMO FAILS ON THE UNCHANGED TREE", p.stdout.decode()[-800:]); continue
        ok = True
        for ed in b["edits"]:
            f, old, new = ed if len(ed) == 3 else (b["file"],) + tuple(ed)
            path = os.path.join(REPO, f); s = open(path, encoding="utf8").read()
            if s.count(old) != 1: print(b["id"], "EDIT MATCHES %d TIMES: %s" % (s.count(old), old[:80])); ok = False; break
            # Only lines of the original repository.
            k0 = s[:s.index(old)].count("\n") + 1; k1 = k0 + old.rstrip("\n").count("\n")
            bl = sh("git blame -s -L%d,%d -- %s" % (k0, k1, f)).stdout.decode()
            gone = [l for l in bl.split("\n") if l and l.lstrip("^")[:8].rstrip() and any(l.lstrip("^").startswith(x[:7]) for x in fixed)]
            if gone: print(b["id"], "touches lines of a fix:", gone[:2])
            open(path, "w", encoding="utf8").write(s.replace(old, new))
        if not ok: continue
        diff = sh("git diff").stdout
        p = sh("bash %s/demo.sh" % w, env=e)
        if p.returncode == 0: print(b["id"], "DEMO PASSES WITH THE CHANGE"); continue
        if p.returncode == 2: print(b["id"], "DOES NOT BUILD", p.stdout.decode()[-1500:]); continue
        shown = p.stdout.decode()[:300]
        p = sh("cargo test --workspace --no-fail-fast --offline 2>&1 && cargo test --workspace --all-features --no-fail-fast --offline 2>&1", timeout=900)
        if p.returncode != 0:
            print(b["id"], "TESTS FAIL:", [l for l in p.stdout.decode().split("\n") if "FAILED" in l or "error" in l][:6]); continue
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "wb").write(diff)
        for n in ("demo.sh", "demo.rs", "expected.txt"): shutil.copy(w + "/" + n, d)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(b["id"], "kept;", shown.replace("\n", " ")[:160], flush=True)
    clean()
main()
