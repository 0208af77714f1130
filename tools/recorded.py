#!/usr/bin/env python3
"""Runs a check, keeping what it asked the harness for (see mutate.py): recorded.py DIR Cxx..."""
import json, os, shutil, subprocess, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
if len(sys.argv) > 3:
    for p in sys.argv[2:]: subprocess.run([sys.executable, __file__, sys.argv[1], p])
    sys.exit()
sys.path.insert(0, ROOT)
import run
base, prop = os.path.abspath(sys.argv[1]), sys.argv[2]
d = os.path.join(base, prop)
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
real, calls = run.harness, []
def harness(args, timeout=600):
    calls.append(args)
    return real(args, timeout)
run.harness = harness
class Work(run.Work):
    def __init__(self, name):
        self.dir, self.n = d, 0
    def close(self): pass
run.Work = Work
run.build()
rc = run.Check(prop).run()
json.dump([c for c in calls if c[0] in ("run", "exec") and "--only-cases" not in c], open(d + "/calls.json", "w"))
print(prop, rc, len(calls))
