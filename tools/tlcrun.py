"""Runs TLC and reads its output."""
import os, re, subprocess, time, shutil, tempfile
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")

class Result: pass

def tlc(module, cfg, env, metadir, workers=8, timeout=600, heap="6g", extra=()):
    shutil.rmtree(metadir, ignore_errors=True)
    os.makedirs(metadir, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", metadir, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ); e.update(env)
    t = time.time()
    r = Result()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r.out = p.stdout.decode("utf8", "replace"); r.rc = p.returncode; r.timeout = False
    except subprocess.TimeoutExpired as x:
        r.out = (x.stdout or b"").decode("utf8", "replace"); r.rc = -1; r.timeout = True
    shutil.rmtree(metadir, ignore_errors=True)
    r.wall = time.time() - t
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    allm = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(allm[-1][0]), int(allm[-1][1])) if allm else (0, 0)
    r.finished = "Model checking completed. No error has been found." in r.out
    r.violated = re.findall(r"Invariant (\w+) is violated", r.out)
    return r
