#!/usr/bin/env python3
"""Runs the check of its property against each planted bug: trial.py [ID...]"""
import json, os, subprocess, sys, time
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SEEDED = os.path.join(ROOT, "seeded")
os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
res = os.path.join(ROOT, "build", "trials.json")
seen = json.load(open(res)) if os.path.exists(res) else {}
args = [a for a in sys.argv[1:] if not a.startswith("-")]
prop = [a[7:] for a in sys.argv[1:] if a.startswith("--prop=")]
ids = args or sorted(d for d in os.listdir(SEEDED) if d not in seen)
for i in ids:
    d = os.path.join(SEEDED, i)
    p = prop[0] if prop else json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE).stdout.strip(), "/repo is not clean"
    t = time.time()
    try:
        subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["python3", "run.py", "check", p], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    o = r.stdout.decode("utf8", "replace")
    caught = r.returncode == 1 and ("VIOLATION property=" + p) in o
    v = [l for l in o.split("\n") if "violation:" in l]
    print("%-26s %s %s rc=%d %4.0fs %s" % (i, p, "caught" if caught else "MISSED", r.returncode, time.time() - t, (v[0][:260] if v else o[-300:] if r.returncode == 2 else "")), flush=True)
    if not prop:
        seen[i] = {"property": p, "caught": caught, "rc": r.returncode}
        json.dump(seen, open(res, "w"), indent=1)
