#!/usr/bin/env python3
"""Which lines of the embedded Beider-Morse rules do the recorded cases of C16 (recorded.py) notice?

  ruledata.py REC OUT [WORKERS]
Every line is dropped, and changed in its last part, in a copy of the rules loaded from a
folder; OUT gets one line per change that no recorded call shows.
"""
import json, os, re, subprocess, sys, threading, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genbm
S = "/tmp/rd"
rec, out, workers = sys.argv[1], sys.argv[2], int((sys.argv + ["4"])[3])
files = genbm.folder("bm-embedded")
for nt in genbm.NTS:
    files.setdefault(nt + "_languages.txt", "any\n"); files.setdefault(nt + "_lang.txt", "")
calls = json.load(open(os.path.join(rec, "C16", "calls.json")))
cases = [x for x in map(json.loads, open(os.path.join(rec, "C16", "2.in"))) if x["enc"]["cfg"] == 0]
if len(sys.argv) > 4: cases = [json.loads(l) for l in open(sys.argv[4])]
for x in cases: x["enc"]["cfg"] = 1; x["enc"]["how"] = "new"
by = {}
for x in cases: by.setdefault(x["enc"]["nt"], []).append(x)
def go(w, fs, nt):
    d = os.path.join(S, "w%d" % w); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/f"); os.makedirs(d + "/s")
    for k, v in fs.items(): open(os.path.join(d, "f", k), "w").write(v)
    json.dump({"dms": [], "bm": [{"name": "x", "dir": d + "/f"}], "embedded": True}, open(d + "/cfgs", "w"))
    with open(d + "/in", "w") as f:
        for x in by[nt]: f.write(json.dumps(x) + "\n")
    subprocess.run([rec + "/harness/target/release/harness", "exec", "--in", d + "/in", "--out", d + "/out", "--utab", d + "/u", "--scratch", d + "/s", "--cfgs", d + "/cfgs"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return open(d + "/out").read()
base = {nt: go(0, files, nt) for nt in genbm.NTS}
print({nt: len(v) for nt, v in by.items()}, flush=True)
jobs = []
for f in sorted(files):
    if f.endswith(("languages.txt", "lang.txt")): continue
    ls = files[f].split("\n")
    for i, l in enumerate(ls):
        if not l.startswith('"'): continue
        alts = [("drop", None)]
        m = re.match(r'("[^"]*"\s+"[^"]*"\s+"[^"]*"\s+")([^"]*)(".*)$', l)
        if m and "(" not in m.group(2): alts.append(("phoneme", m.group(1) + m.group(2) + "Q" + m.group(3)))
        elif m: alts.append(("phoneme", m.group(1) + m.group(2).replace(")", "Q)", 1) + m.group(3)))
        for kind, new in alts: jobs.append((f, i, kind, new))
if len(sys.argv) > 5:
    only = {l.rstrip("\n") for l in open(sys.argv[5])}
    jobs = [j for j in jobs if "%s:%d %s  %s" % (j[0], j[1] + 1, j[2], files[j[0]].split("\n")[j[1]]) in only]
# Files included by others count for the name type in their name.
print(len(jobs), "changes", flush=True)
it = iter(jobs); lock = threading.Lock(); n = [0, 0]; o = open(out, "w"); seen = open(out + ".seen", "w")
def work(w):
    while True:
        with lock: j = next(it, None)
        if j is None: return
        f, i, kind, new = j
        ls = files[f].split("\n"); old = ls[i]
        if new is None: del ls[i]
        else: ls[i] = new
        try:
            got = go(w, dict(files, **{f: "\n".join(ls)}), f[:3])
            same = got == base[f[:3]]
            if not same:
                # The shortest case that shows it.
                ds = [k for k, (x, y) in enumerate(zip(got.split("\n"), base[f[:3]].split("\n"))) if x != y]
                k = min(ds, key=lambda k: (len(by[f[:3]][k]["in"]), k)); one = by[f[:3]][k]
                with lock: seen.write(json.dumps({"at": "%s %s" % (kind, old), "f": f, "x": one}) + "\n"); seen.flush()
        except Exception as e: same = False; print(e, flush=True)
        with lock:
            n[0] += 1; n[1] += same
            if same: o.write("%s:%d %s  %s\n" % (f, i + 1, kind, old)); o.flush()
ts = [threading.Thread(target=work, args=(k + 1,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(n)
