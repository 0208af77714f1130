#!/usr/bin/env python3
"""Words that tell the surviving changes of mutate.py from the unchanged code.

  survivors.py HARNESS MUT FILE STREAMS SEED OUT [WORKERS]
Every surviving change to FILE is made again and much longer streams of words are tried; OUT
gets the shortest record that differs, or none.
"""
import json, os, re, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frags
S = "/tmp/sur"
har, mut, file, streams, seed, outp = sys.argv[1:7]
nw = int((sys.argv + ["5"])[7])
os.makedirs(S, exist_ok=True)
json.dump(frags.frags(), open(S + "/frags", "w"))
text = open("/repo/" + file, encoding="utf8").read().split("\n")
ms = []
for l in open(mut, encoding="utf8"):
    m = re.match(r"SURVIVES (\S+):(\d+)  .*?  =>  (.*)$", l.rstrip("\n"))
    if m and m.group(1) == file and (int(m.group(2)), m.group(3)) not in ms: ms.append((int(m.group(2)), m.group(3)))
def run(d, exe, out):
    subprocess.run([exe, "run", "--frags", S + "/frags", "--seed", seed, "--streams", streams, "--scratch", d + "/s", "--out", out, "--utab", d + "/u"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
os.makedirs(S + "/b", exist_ok=True)
run(S + "/b", har + "/target/release/harness", S + "/base")
base = open(S + "/base").read().split("\n")
print(len(ms), "changes", len(base), "records", flush=True)
lock, todo, o = threading.Lock(), list(ms), open(outp, "a")
def work(k):
    d = "%s/%d" % (S, k)
    shutil.rmtree(d + "/repo", ignore_errors=True); shutil.rmtree(d + "/harness", ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree(har, d + "/harness", ignore=shutil.ignore_patterns("target"))
    t = open(d + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d).replace("incremental = false", "incremental = true")
    open(d + "/harness/Cargo.toml", "w").write(t)
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
    while True:
        with lock:
            if not todo: return
            n, new = todo.pop(0)
        ls = list(text); pad = len(ls[n - 1]) - len(ls[n - 1].lstrip()); ls[n - 1] = " " * pad + new.replace("«", "").replace("»", "")
        open(d + "/repo/" + file, "w", encoding="utf8").write("\n".join(ls))
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d + "/harness", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode: print("build", n, new, r.stderr[-300:]); continue
        try: run(d, d + "/target/release/harness", d + "/out")
        except Exception as e: print("run", n, new, e, flush=True); continue
        got = open(d + "/out").read().split("\n")
        ds = [b for a, b in zip(got, base) if a != b]
        rec = min(ds, key=len) if ds else None
        with lock:
            word = None
            if rec:
                x = json.loads(rec); word = "".join(map(chr, x.get("in") or []))
            o.write("%s:%d %s  %d %s\n" % (file, n, new, len(ds), word)); o.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", file)
