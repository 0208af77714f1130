#!/usr/bin/env python3
"""Decides the properties of rphonetic with the TLA+ specification in spec/.

  run.py setup             build what can be built beforehand
  run.py check C02         decide one property (VERIF_TIER, VERIF_SEED)
  run.py replay FILE       run a violation again
Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer.
"""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
os.environ.setdefault("CARGO_NET_OFFLINE", "true")
import tlcrun, genbm, frags as fragmod
from plan import PLAN

BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(BUILD, "target", "release", "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()

class NoAnswer(Exception):
    pass

def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)

def sources():
    """What the crate is made of, by content (the times of files may lie)."""
    h = hashlib.sha256()
    for top in ("src", "rules"):
        for d, _, fs in sorted(os.walk(os.path.join("/repo", top))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    for f in ("Cargo.toml", "build.rs"):
        p = os.path.join("/repo", f)
        if os.path.exists(p): h.update(open(p, "rb").read())
    return h.hexdigest()

def build():
    stamp, now = os.path.join(BUILD, "built"), sources()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        fp = os.path.join(BUILD, "target", "release", ".fingerprint")
        for f in os.listdir(fp) if os.path.isdir(fp) else []:
            if f.startswith(("rphonetic-", "harness-")): shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(HARNESS):
        raise NoAnswer("the harness does not build:\n" + p.stdout.decode("utf8", "replace")[-3000:])
    open(stamp, "w").write(now)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))

def harness(args, timeout=600):
    """Runs the harness: its summary, or None if the process died."""
    p = subprocess.run([HARNESS] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
    if p.returncode == 3:
        raise NoAnswer("harness: " + p.stderr.decode("utf8", "replace")[-2000:])
    if p.returncode != 0:
        return None
    return json.loads(p.stdout.decode().strip().splitlines()[-1])

def lines(path):
    with open(path, encoding="utf8") as f:
        return [l for l in f if l.strip()]

def put(path, ls):
    with open(path, "w", encoding="utf8") as f:
        f.writelines(l if l.endswith("\n") else l + "\n" for l in ls)

class Work:
    """Scratch folder of one check."""
    def __init__(self, name):
        self.dir = os.path.join(BUILD, "run", "%s-%d" % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0
    def path(self, suffix):
        self.n += 1
        return os.path.join(self.dir, "%d%s" % (self.n, suffix))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def died_on(work, cases, cfgs):
    """The case on which the harness process dies (stack overflow, memory)."""
    while len(cases) > 1:
        half = cases[:len(cases) // 2]
        i, o, u = work.path(".in"), work.path(".out"), work.path(".u")
        put(i, half)
        r = harness(["exec", "--in", i, "--out", o, "--utab", u, "--scratch", work.path("s")] + (["--cfgs", cfgs] if cfgs else []))
        cases = half if r is None else cases[len(cases) // 2:]
    return cases

def record(work, streams, cfgs, keep=None, seed=None):
    """Executes streams of cases: (records file, utab file, summary)."""
    fr = work.path(".frags")
    json.dump(fragmod.frags(), open(fr, "w"))
    out, ut = work.path(".ndjson"), work.path(".utab")
    base = ["--frags", fr, "--seed", str(seed or SEED), "--streams", ",".join("%s=%d" % s for s in streams)]
    cf = ["--cfgs", cfgs] if cfgs else []
    sc = ["--scratch", work.path("s")]
    r = harness(["run"] + base + cf + sc + ["--out", out, "--utab", ut] + (["--keep", str(keep)] if keep else []))
    if r is None:
        # Which case kills the process?
        cases = work.path(".cases")
        harness(["run"] + base + cf + sc + ["--out", cases, "--utab", ut, "--only-cases", "1"])
        c = json.loads(died_on(work, lines(cases), cfgs)[0])
        c["st"] = "died"; c["out"] = []
        put(out, [json.dumps(c)])
        one = work.path(".in"); put(one, ["{}"])
        u2 = work.path(".utab")
        put(u2, ['{"alpha":false,"c":130,"lo":[130],"up":[130],"ws":false}'])
        return out, u2, {"executed": 1, "records": 1, "panics": 0}
    return out, ut, r

def tlc(work, module, cfg, env, timeout, heap="10g", extra=(), workers=8):
    md = work.path("md")
    r = tlcrun.tlc(module + ".tla", cfg + ".cfg", env, md, workers=workers, timeout=timeout, heap=heap, extra=extra)
    r.mismatch = [(int(a), b) for a, b in re.findall(r'<<\s*"MISMATCH",\s*(\d+),\s*"(.*?)"\s*>>', r.out, re.S)]
    if not r.finished and not r.mismatch and not r.violated:
        raise NoAnswer("TLC gives no answer on %s/%s%s:\n%s" % (module, cfg, " (timeout)" if r.timeout else "", r.out[-3000:]))
    return r

def show(v):
    """Code points back to text, for people."""
    if isinstance(v, list) and v and all(isinstance(x, int) and 0 < x < 0x110000 and not 0xD800 <= x < 0xE000 for x in v):
        return "".join(map(chr, v))
    if isinstance(v, list):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {k: (x if k == "ns" else show(x)) for k, x in v.items()}
    return v

def leaves(v, path=()):
    """Where the values of an outcome are: texts, numbers and truth values."""
    if isinstance(v, (bool, int)): return [path]
    if isinstance(v, list) and all(isinstance(x, int) and not isinstance(x, bool) for x in v): return [path]
    if isinstance(v, list): return [p for i, x in enumerate(v) for p in leaves(x, path + (i,))]
    if isinstance(v, dict): return [p for k, x in sorted(v.items()) for p in leaves(x, path + (k,))]
    return []

def corrupted(rec, rng):
    """The record with another outcome."""
    rec = json.loads(json.dumps(rec))
    ps = leaves(rec["out"], ("out",))
    if not ps: return None
    p = rng.choice(ps)
    at = rec
    for k in p[:-1]: at = at[k]
    v = at[p[-1]]
    at[p[-1]] = (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) else v[:-1] if len(v) > 1 and rng.random() < 0.5 else [66] + v
    return rec

def spec_cfgs(work, cfgs):
    """For the specification, the embedded rules are the first configuration,
    and known folders come with their files."""
    d = json.load(open(cfgs))
    def files(f):
        return {k: [ord(c) for c in v] for k, v in genbm.folder(f).items()}
    emb = {"none": True}
    if d.get("embedded"):
        emb = {"embedded": True, "files": files("bm-embedded")}
        for nt in genbm.NTS:
            emb["files"][nt + "_languages.txt"] = [ord(c) for c in "any\n"]
            emb["files"][nt + "_lang.txt"] = []
    rules = open(os.path.join(genbm.DATA, "dmrules.txt"), encoding="utf8", newline="").read()
    bm = [json.dumps(emb)]
    for e in d.get("bm", []):
        bm.append(json.dumps({"files": files(e["name"])} if "name" in e else e))
    p = work.path(".scfgs")
    open(p, "w").write('{"dms":%s,"bm":[%s]}' % (json.dumps([[ord(c) for c in rules]] + d.get("dms", [])), ",".join(bm)))
    return p

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = SEED
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.plan = PLAN[prop]
        self.work = Work(prop)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0, "samples": [], "parts": []}
        self.violations = []
        self.known = []
        self.bound = set()
        self.rng2 = random.Random("binding/%s/%d" % (prop, SEED))

    def violation(self, what, data):
        rep = os.path.join(BUILD, "replays")
        os.makedirs(rep, exist_ok=True)
        data = dict(data, property=self.prop, what=what)
        s = json.dumps(data, ensure_ascii=False, indent=1)
        path = os.path.join(rep, "%s-%s.json" % (self.prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
        open(path, "w", encoding="utf8").write(s)
        self.violations.append(path)
        log("violation:", what)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def decided(self):
        """Enough violations: the rest would only take time."""
        return len(self.violations) >= 3

    def part(self, name, **kw):
        self.cov["parts"].append(dict(kw, part=name))
        log(name, kw)

    def conform(self, module, streams, cfgs=None, keep=None, seed=None, env=None, timeout=None, parts=1):
        """Records executions of the code and checks them against the specification."""
        if self.decided(): return
        out, ut, summary = record(self.work, streams, cfgs, keep, seed)
        self.validate(module, out, ut, summary, env or {}, timeout, cfgs, [s[0] for s in streams])

    def conform_cases(self, module, cases, cfgs=None, env=None, timeout=None, name="", keep=None):
        """The same for given cases."""
        if self.decided(): return
        i, o, u = self.work.path(".in"), self.work.path(".out"), self.work.path(".u")
        put(i, [json.dumps(c) for c in cases])
        s = harness(["exec", "--in", i, "--out", o, "--utab", u, "--scratch", self.work.path("s")] + (["--cfgs", cfgs] if cfgs else [])
                    + (["--keep", str(keep)] if keep else []))
        if s is None:
            c = json.loads(died_on(self.work, lines(i), cfgs)[0])
            self.violation("the process dies on " + json.dumps(show(c), ensure_ascii=False)[:600], {"record": c, "module": None, "cfgs": json.load(open(cfgs)) if cfgs else None})
            return
        self.validate(module, o, u, s, env or {}, timeout, cfgs, [name])

    def write_cfgs(self, dms=(), bm=(), embedded=False):
        """A configuration file for the harness and the specification."""
        p = self.work.path(".cfgs")
        json.dump({"dms": list(dms), "bm": list(bm), "embedded": embedded}, open(p, "w"))
        return p

    def validate(self, module, out, ut, summary, env, timeout, cfgs, names):
        if summary["records"] == 0:
            raise NoAnswer("no records")
        e = dict(env, RECS=out, UTAB=ut)
        if cfgs: e["CFGS"] = self.spec_cfgs(cfgs)
        r = tlc(self.work, module, module, e, timeout or (300 if TIER == "quick" else 3000))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["executions"] += summary["executed"]
        ls = lines(out)
        for a, b in r.mismatch[:3]:
            rec = json.loads(ls[a - 1])
            try: exp = json.loads(json.loads('"' + b + '"')).get("expected")
            except Exception: exp = b
            self.violation("the code does what the specification does not allow: " + json.dumps(show(rec), ensure_ascii=False)[:600]
                           + (" expected " + json.dumps(show(exp), ensure_ascii=False)[:300] if exp else ""),
                           {"module": module, "record": rec, "expected": exp, "cfgs": json.load(open(cfgs)) if cfgs else None, "env": env})
        if not r.mismatch and r.violated:
            raise NoAnswer("violated without mismatch: " + r.out[-2000:])
        if not r.mismatch:
            self.cov["traces_validated_against_impl"] += r.distinct
            if module not in self.bound:
                self.bound.add(module)
                self.binding(module, ls, e)
        kn = [json.loads(l) for l in ls if '"known":' in l]
        self.known += [k for k in kn]
        step = max(1, len(ls) // 2)
        for l in ls[step // 2::step][:2]:
            x = json.loads(l); self.cov["samples"].append(show(x) if len(l) < 1500 else l[:1500])
        self.part("conformance", module=module, streams=names, executed=summary["executed"], judged_by_tlc=r.distinct,
                  tlc_s=round(r.wall, 1))

    def binding(self, module, ls, env):
        """Records with another outcome than the one observed must not be accepted."""
        rs = [json.loads(l) for l in self.rng2.sample(ls, min(60, len(ls)))]
        bad = [x for x in (corrupted(r, self.rng2) for r in rs if r["st"] == "ok" and "known" not in r) if x]
        if not bad: return
        p = self.work.path(".bad")
        put(p, [json.dumps(x) for x in bad])
        if module == "ConfTotal":
            for x in bad: x["st"] = "panic"
            put(p, [json.dumps(x) for x in bad])
        r = tlc(self.work, module, module, dict(env, RECS=p), 300, extra=("-continue",))
        n = len(set(a for a, _ in r.mismatch))
        if n == 0: raise NoAnswer("%s accepts outcomes that were not observed" % module)
        self.part("binding", module=module, corrupted=len(bad), rejected=n)

    def spec_cfgs(self, cfgs):
        return spec_cfgs(self.work, cfgs)

    def model(self, module, cfg=None, inp=None, cfgs=None, fix=None, timeout=None, name=""):
        """Model checks the specification and replays its behaviours on the code.
        inp: what the model is checked on; cfgs: configurations; fix: completes a case."""
        if self.decided(): return
        cfg, e, src = cfg or module, {}, self.work.path(".chars")
        put(src, [json.dumps(inp or {})] + ([open(cfgs).read()] if cfgs else []))
        ut = e["UTAB"] = self.work.path(".utab")
        harness(["utab", "--in", src, "--utab", ut, "--scratch", self.work.path("s")])
        if inp is not None:
            e["MCIN"] = self.work.path(".mcin")
            put(e["MCIN"], [json.dumps(inp)])
        if cfgs: e["CFGS"] = self.spec_cfgs(cfgs)
        r = tlc(self.work, module, cfg, e, timeout or (300 if TIER == "quick" else 3000))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if r.violated or not r.finished:
            # The specification itself is wrong: this says nothing about the code.
            raise NoAnswer("the model violates %s: %s" % (r.violated, re.sub(r'(?m)^<<"CASE".*\n', "", r.out)[-3000:]))
        cases = [json.loads('"' + m + '"') for m in re.findall(r'^<<"CASE", "(.*)">>$', r.out, re.M)]
        if fix: cases = [json.dumps(y) for y in (fix(json.loads(x)) for x in cases) if y]
        if not cases and not cfg.endswith("Live") and inp is not None: raise NoAnswer("no behaviours to replay from " + cfg)
        if cases: self.replay_cases(cases, cfg, cfgs)
        self.part("model", module=module, cfg=cfg, on=name, states=r.distinct, transitions=r.generated, replayed=len(cases), tlc_s=round(r.wall, 1))

    def behaviours(self, module, cfg, env=None):
        """All behaviours of a model that it writes out, after checking it."""
        r = tlc(self.work, module, cfg, env or {}, 300 if TIER == "quick" else 3000)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        cases = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^<<"CASE", "(.*)">>$', r.out, re.M)]
        if r.violated or not r.finished or not cases: raise NoAnswer("the model %s: %s" % (cfg, r.out[-2000:]))
        self.part("model", module=module, cfg=cfg, states=r.distinct, transitions=r.generated, behaviours=len(cases), tlc_s=round(r.wall, 1))
        return cases

    def simulate(self, module, cfg, num, depth):
        """Random behaviours of the specification that it writes out."""
        md = self.work.path("md")
        r = tlcrun.tlc(module + ".tla", cfg + ".cfg", {}, md, timeout=300, heap="4g",
                       extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)))
        cases = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^<<"CASE", "(.*)">>$', r.out, re.M)]
        if r.violated or not cases: raise NoAnswer("simulation of %s: %s" % (cfg, r.out[-2000:]))
        m = re.search(r"The number of states generated: (\d+)", r.out)
        self.cov["transitions"] += int(m.group(1)) if m else 0
        self.part("simulation", module=module, cfg=cfg, behaviours=len(cases), tlc_s=round(r.wall, 1))
        return cases

    def pool(self, streams, cfgs=None):
        """Cases of streams, without executing them."""
        fr, out, ut = self.work.path(".frags"), self.work.path(".cases"), self.work.path(".utab")
        json.dump(fragmod.frags(), open(fr, "w"))
        r = harness(["run", "--frags", fr, "--seed", str(self.seed), "--streams", ",".join("%s=%d" % s for s in streams),
                     "--scratch", self.work.path("s"), "--out", out, "--utab", ut, "--only-cases", "1"] + (["--cfgs", cfgs] if cfgs else []))
        return [json.loads(l) for l in lines(out)]

    def observe(self, cases, cfgs, processes, threads, rounds):
        """The same calls in several processes, threads and orders; TLC judges what was seen of each."""
        if self.decided(): return
        i = self.work.path(".in")
        put(i, [json.dumps(c) for c in cases])
        merged, total = None, 0
        for p in range(processes):
            o = self.work.path(".out")
            try:
                s = harness(["observe", "--in", i, "--out", o, "--seed", str(self.seed * 100 + p), "--threads", str(threads), "--rounds", str(rounds),
                             "--scratch", self.work.path("s")] + (["--cfgs", cfgs] if cfgs else []), timeout=120 if TIER == "quick" else 600)
            except subprocess.TimeoutExpired:
                s = None
            if s is None:
                # None of these calls has this effect when made alone (see C01).
                self.violation("concurrent calls end the process or never return, for instance " + json.dumps(show(cases[0]), ensure_ascii=False)[:400],
                               {"module": None, "record": cases[0], "cfgs": json.load(open(cfgs)) if cfgs else None})
                return
            total += s["executed"]
            rs = [json.loads(l) for l in lines(o)]
            if merged is None: merged = rs
            else:
                for a, b in zip(merged, rs):
                    for x in b["outs"]:
                        if x not in a["outs"]: a["outs"].append(x)
        out, ut = self.work.path(".ndjson"), self.work.path(".utab")
        put(out, [json.dumps(m) for m in merged])
        put(ut, ['{"alpha":true,"c":233,"lo":[233],"up":[201],"ws":false}'])
        self.validate("ConfSession", out, ut, {"executed": total, "records": len(merged)}, {}, None, cfgs,
                      ["%d processes, %d threads, %d rounds" % (processes, threads, rounds)])

    def replay_cases(self, cases, cfg, cfgs=None):
        i, o, u = self.work.path(".in"), self.work.path(".out"), self.work.path(".u")
        put(i, cases)
        given = json.load(open(cfgs)) if cfgs else None
        s = harness(["exec", "--in", i, "--out", o, "--utab", u, "--scratch", self.work.path("s")] + (["--cfgs", cfgs] if cfgs else []))
        if s is None:
            c = json.loads(died_on(self.work, cases, cfgs)[0])
            self.violation("the process dies on " + json.dumps(show(c))[:600], {"record": c, "module": None, "cfgs": given})
            return
        bad = 0
        for l in lines(o):
            x = json.loads(l)
            if x["st"] != "ok" or x["out"] != x["expect"]:
                bad += 1
                if bad <= 3:
                    self.violation("replay of the model %s: %s" % (cfg, json.dumps(show(x), ensure_ascii=False)[:700]),
                                   {"module": None, "record": x, "expected": x["expect"], "cfgs": given})
        self.cov["executions"] += s["executed"]
        if not bad: self.cov["traces_validated_against_impl"] += s["executed"]
        x = json.loads(cases[len(cases) // 2]); self.cov["samples"].append(show(x))

    def run(self):
        try:
            self.plan(self)
        except (NoAnswer, subprocess.TimeoutExpired) as e:
            if not self.violations: raise
            print("NO ANSWER for the rest:", e, flush=True)
        for k in known_findings():
            if k["property"] == self.prop:
                hit = [x for x in self.known if x["known"] == k["id"]]
                if hit:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        self.evidence()
        return 1 if self.violations else 0

    def evidence(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        self.cov["samples"] = self.cov["samples"][:8]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - T0, 1), "violations": len(self.violations),
              "assumptions": ["What Unicode says about characters beyond ASCII is read from the Rust standard library.",
                              "TLC, the JVM and the harness that records what the code does are trusted."]}
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1, ensure_ascii=False)

def known_findings():
    p = os.path.join(ROOT, "known-findings.txt")
    out = []
    for l in open(p, encoding="utf8") if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m: out.append({"property": m.group(1), "id": m.group(2), "what": m.group(3)})
    return out

def replay(path):
    d = json.load(open(path))
    build()
    w = Work("replay")
    try:
        i, o, u = w.path(".in"), w.path(".out"), w.path(".u")
        put(i, [json.dumps(d["record"])])
        cfgs = None
        if d.get("cfgs"):
            cfgs = w.path(".cfgs"); json.dump(d["cfgs"], open(cfgs, "w"))
        s = harness(["exec", "--in", i, "--out", o, "--utab", u, "--scratch", w.path("s")] + (["--cfgs", cfgs] if cfgs else []))
        if s is None:
            print("the process dies"); return 1
        x = json.loads(lines(o)[0])
        print("observed:", json.dumps(show(x), ensure_ascii=False))
        if not d.get("module"):
            print("expected:", json.dumps(show(d.get("expected")), ensure_ascii=False))
            return 1 if x["st"] != "ok" or x["out"] != d.get("expected") else 0
        e = dict(d.get("env") or {}, RECS=o, UTAB=u)
        if cfgs: e["CFGS"] = spec_cfgs(w, cfgs)
        r = tlc(w, d["module"], d["module"], e, 300)
        print("expected:", r.mismatch[0][1] if r.mismatch else "what was observed")
        return 1 if r.mismatch else 0
    finally:
        w.close()

def main():
    os.chdir(ROOT)
    c = sys.argv[1]
    if c == "setup":
        build(); return 0
    if c == "replay":
        return replay(sys.argv[2])
    if c == "check":
        build()
        log("harness built")
        k = Check(sys.argv[2])
        try:
            return k.run()
        finally:
            if not os.environ.get("VERIF_KEEP"): k.work.close()
    raise SystemExit("run.py setup|check|replay")

if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e, flush=True)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: timeout", e, flush=True)
        sys.exit(2)
