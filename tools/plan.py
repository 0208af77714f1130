"""What every check runs.  Counts: (quick, thorough)."""
import os
TIER = os.environ.get("VERIF_TIER", "quick")
def n(quick, thorough):
    return thorough if TIER == "thorough" else quick
PLAN = {}

def simple(prop, streams):
    def f(c):
        c.conform("ConfSimple", [(s, n(*k)) for s, k in streams])
    PLAN[prop] = f
def then(prop, f):
    """Adds something to the check of a property."""
    g = PLAN[prop]
    def both(c):
        g(c); f(c)
    PLAN[prop] = both
ALGS = ["sdx", "rsx", "col", "cav1", "cav2", "met", "dmp", "nys", "phx", "mra"]

simple("C02", [("words:sdx", (90000, 900000)), ("big:sdx", (600, 6000)), ("affix:sdx", (7600, 7600)), ("ctor:sdx", (6000, 60000)), ("short:sdx", (8000, 20000))])
simple("C03", [("words:rsx", (90000, 900000)), ("big:rsx", (600, 6000)), ("affix:rsx", (7600, 7600)), ("ctor:rsx", (6000, 60000)), ("short:rsx", (8000, 20000))])
simple("C04", [("words:col", (90000, 900000)), ("big:col", (600, 6000)), ("affix:col", (7600, 7600)), ("frags:col", (8000, 40000)), ("short:col", (20000, 20000))])
simple("C05", [("words:cav1", (40000, 500000)), ("words:cav2", (40000, 500000)), ("big:cav1", (500, 5000)), ("affix:cav1", (7600, 7600)), ("frags:cav1", (10000, 50000)), ("big:cav2", (500, 5000)), ("affix:cav2", (7600, 7600)), ("frags:cav2", (10000, 50000)), ("short:cav1", (8000, 20000)), ("short:cav2", (8000, 20000))])
simple("C06", [("words:met", (90000, 900000)), ("big:met", (600, 6000)), ("affix:met", (7600, 7600)), ("frags:met", (16000, 80000)), ("short:met", (20000, 20000))])
simple("C07", [("words:dmp", (90000, 900000)), ("big:dmp", (600, 6000)), ("affix:dmp", (7600, 7600)), ("frags:dmp", (40000, 200000)), ("short:dmp", (20000, 20000))])
simple("C09", [("words:mra", (70000, 900000)), ("big:mra", (600, 6000)), ("affix:mra", (7600, 7600)), ("frags:mra", (4000, 20000)), ("short:mra", (8000, 20000))])
simple("C10", [("mreq", (70000, 900000))])
simple("C11", [("words:nys", (90000, 900000)), ("big:nys", (600, 6000)), ("affix:nys", (7600, 7600)), ("frags:nys", (10000, 50000)), ("short:nys", (20000, 20000))])
simple("C12", [("words:phx", (90000, 900000)), ("big:phx", (600, 6000)), ("affix:phx", (7600, 7600)), ("frags:phx", (5000, 25000)), ("short:phx", (20000, 20000))])
simple("C20", [("chs", (60000, 600000))])

def rel(prop, streams):
    def f(c):
        c.conform("ConfRel", [(s, n(*k)) for s, k in streams])
    PLAN[prop] = f
rel("C08", [("limits:met:dmp:nys:phx", (100000, 1500000))])
def rel_all(prop, kind):
    """All encoders, those with rule files too."""
    def f(c):
        algs = ":".join(a for a in ALGS if a != "mra" or kind == "case")
        c.conform("ConfRel", [("%s:%s" % (kind, algs), n(150000, 1500000))])
        if kind == "case": c.conform("ConfRel", [("caseaffix:%s" % algs, 7600)])
        full = {"name": "bm-full", "dir": os.path.join(genbm.DATA, "bm-full")}
        texts = gendms.tables(c.rng, 10)
        c.conform("ConfRel", [(kind + ":dms", n(30000, 300000)), (kind + ":bm", n(12000, 60000))] + ([("caseaffix:dms", 7600), ("caseaffix:bm", n(2500, 7600))] if kind == "case" else []),
                  cfgs=c.write_cfgs(dms=[gendms.cps(t) for t in texts], bm=[full], embedded=True))
    PLAN[prop] = f
rel_all("C21", "eq")
rel_all("C23", "case")

import gendms, genbm

def c13(c):
    c.conform("ConfDms", [("words:dms", n(25000, 400000)), ("big:dms", n(500, 5000)), ("short:dms", n(18500, 18500)), ("affix:dms", 7600), ("frags:dms", n(12000, 60000))], cfgs=c.write_cfgs())
    for k in range(n(1, 12)):
        texts = gendms.tables(c.rng, 40)
        c.conform_cases("ConfDms", gendms.enc_cases(c.rng, texts, n(30000, 60000)), cfgs=c.write_cfgs(dms=[gendms.cps(t) for t in texts]), name="custom tables")
PLAN["C13"] = c13
def c14(c):
    for k in range(n(1, 12)):
        c.conform_cases("ConfDmsText", gendms.text_cases(c.rng, n(15000, 40000)), name="rule texts")
PLAN["C14"] = c14

def bm_known(c, n_embedded, n_full):
    """The embedded and the complete Beider-Morse rules."""
    langs = genbm.languages(genbm.folder("bm-full"))
    cases = genbm.known_cases("bm-embedded", 0, genbm.languages(genbm.folder("bm-embedded")), c.rng, n_embedded)
    cases += genbm.known_cases("bm-full", 1, langs, c.rng, n_full)
    # Every rule once or more.
    cases += genbm.chosen_cases()
    cases += genbm.directed_cases("bm-embedded", 0, genbm.languages(genbm.folder("bm-embedded")), c.rng, 1, top=n(1000, 10000))
    cases += genbm.directed_cases("bm-full", 1, langs, c.rng, n(1, 4), top=n(3000, 20000))
    c.rng.shuffle(cases)
    full = {"name": "bm-full", "dir": os.path.join(genbm.DATA, "bm-full")}
    c.conform_cases("ConfBm", cases, cfgs=c.write_cfgs(bm=[full], embedded=True), name="embedded and complete rules")
def bm_synthetic(c, ncfg, count, **kw):
    cs = [genbm.config(c.rng) for _ in range(ncfg)]
    c.conform_cases("ConfBm", genbm.config_cases(c.rng, [l for _, l in cs], count, **kw),
                    cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)} for f, _ in cs]), name="synthetic rules")
def c16(c):
    for k in range(n(1, 12)):
        bm_known(c, n(4000, 15000), n(7000, 25000))
        bm_synthetic(c, n(40, 60), n(20000, 60000))
        cs = [genbm.mix_config(c.rng) for _ in range(n(60, 200))]
        c.conform_cases("ConfBm", genbm.mix_cases(c.rng, [l for _, l in cs], n(12000, 60000)),
                        cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)} for f, _ in cs]), name="languages that mix")
        cs = [genbm.far_config(c.rng) for _ in range(n(40, 150))]
        c.conform_cases("ConfBm", genbm.far_cases(c.rng, [l for _, l in cs], n(8000, 50000)),
                        cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)} for f, _ in cs]), name="contexts that reach far")
PLAN["C16"] = c16
def c15(c):
    for k in range(n(1, 10)):
        cs = [genbm.guess_config_real()] + [genbm.guess_config(c.rng) for _ in range(n(40, 80))]
        c.conform_cases("ConfBm", genbm.guess_cases(c.rng, [f for f, _ in cs], [l for _, l in cs], n(25000, 60000), 1),
                        cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)} for f, _ in cs]), name="guessed languages shown")
PLAN["C15"] = c15
def c17(c):
    for k in range(n(1, 10)):
        f, _ = genbm.name_config(c.rng)
        c.conform_cases("ConfBm", genbm.name_cases(c.rng, n(25000, 60000), 1), cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)}]), name="names of several words")
PLAN["C17"] = c17
def c18(c):
    for k in range(n(1, 10)):
        c.conform_cases("ConfBmLoad", genbm.load_cases(c.rng, n(2500, 8000)), name="configuration folders")
PLAN["C18"] = c18
def c19(c):
    c.conform("ConfLset", [("lset", n(30000, 300000))])
PLAN["C19"] = c19

def c01(c):
    full = {"name": "bm-full", "dir": os.path.join(genbm.DATA, "bm-full")}
    keep = n(20000, 100000)
    for a in ALGS: c.conform("ConfTotal", [("long:" + a, n(20000, 70000))], keep=4)
    c.conform("ConfTotal", [("long:dms", 5000), ("long:bm", 300)], keep=8, cfgs=c.write_cfgs(bm=[full], embedded=True))
    for k in range(n(2, 8)):
        seed = c.seed + 1000 * k
        if k == 0:
            for a in ALGS: c.conform("ConfTotal", [("few:" + a, 80000)], keep=2000)
        c.conform("ConfTotal", [("total:" + ":".join(ALGS), n(400000, 1000000)), ("ctor:sdx", 5000), ("ctor:rsx", 5000), ("chs", 20000), ("lset", 20000)], keep=keep, seed=seed)
        texts = gendms.tables(c.rng, 30)
        c.conform("ConfTotal", [("total:dms", n(60000, 300000)), ("few:dms", n(20000, 80000))], cfgs=c.write_cfgs(dms=[gendms.cps(t) for t in texts]), keep=keep // 2, seed=seed)
        cs = [genbm.config(c.rng) for _ in range(20)]
        c.conform("ConfTotal", [("total:bm", n(20000, 100000)), ("few:bm", n(6000, 60000))],
                  cfgs=c.write_cfgs(bm=[full] + [{"files": genbm.files_json(f)} for f, _ in cs], embedded=True), keep=keep // 4, seed=seed)
        c.conform_cases("ConfTotal", gendms.wild_cases(c.rng, n(30000, 100000)), name="wild rule texts", keep=keep)
        c.conform_cases("ConfTotal", genbm.wild_load_cases(c.rng, n(3000, 10000)), name="wild configuration folders", keep=n(600, 3000))
    c.conform_cases("ConfTotal", genbm.finding_cases(), name="known findings")
PLAN["C01"] = c01

import gensession
def c22(c):
    c.model("MC_Session", "MC_Session" if TIER != "thorough" else "MC_SessionBig")
    texts = gendms.tables(c.rng, 6)
    full = {"name": "bm-full", "dir": os.path.join(genbm.DATA, "bm-full")}
    cs = [genbm.config(c.rng) for _ in range(4)]
    cfgs = c.write_cfgs(dms=[gendms.cps(t) for t in texts], bm=[full] + [{"files": genbm.files_json(f)} for f, _ in cs], embedded=True)
    pools = {a: c.pool([("words:" + a, 3000 if a != "bm" else 1500)], cfgs) for a in ALGS + ["dms", "bm"]}
    for k in range(n(1, 6)):
        hists = c.simulate("MC_Session", "MC_SessionSim", n(150, 400), 100)
        c.conform_cases("ConfSession", gensession.sessions(c.rng, hists, pools), cfgs=cfgs, name="histories")
        for a in ALGS: c.observe(gensession.calls(c.rng, pools[a], n(2500, 3000)), cfgs, 2, 8, n(8, 40))
        c.observe(gensession.calls(c.rng, pools["dms"], n(1000, 3000)), cfgs, 3, 8, n(3, 10))
        c.observe(gensession.calls(c.rng, pools["bm"], n(400, 1500)), cfgs, 3, 8, n(2, 6))
        c.seed += 1
PLAN["C22"] = c22

def c24(c):
    r = c.rng
    cases = []
    base = ["ash", "gen", "sep", "Ash", "GEN", "sephardic", "Ashkenazi", "Generic", "", "any", "ash_languages.txt", "gen_languages.txt", "sep_languages.txt",
            "_languages.txt", "gen_lang.txt", "gen_languages", "gen_languages.txt.bak", "a/gen_languages.txt", "gen_approx_any.txt", "\u0130sh", "common"]
    for b in base: cases.append(b)
    for _ in range(n(8000, 50000)):
        b = r.choice(base)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            i = r.randrange(len(b) + 1)
            k = r.random()
            if k < 0.4: b = b[:i] + r.choice(list("aeghnps_. \u00e9\u65e5AGS")) + b[i:]
            elif k < 0.7: b = b[:i] + b[i + 1:]
            elif k < 0.85: b = b.upper() if r.random() < 0.5 else b.title()
            else: b = b + r.choice(base)
        cases.append(b)
    c.conform_cases("ConfNames", [{"op": "nt", "s": gendms.cps(b)} for b in cases], name="names")
    sets = [x["a"] for x in c.pool([("lset", n(9000, 60000))]) if "a" in x]
    c.conform_cases("ConfNames", [{"op": "lsd", "a": a} for a in sets], name="language sets")
    c.conform_cases("ConfNames", [{"op": "errd", "text": x["text"]} for x in gendms.text_cases(r, n(12000, 60000))], name="errors in rule texts")
    c.conform_cases("ConfNames", [{"op": "errb", "files": x["files"]} for x in genbm.load_cases(r, n(4000, 20000))], name="errors in rule files")
PLAN["C24"] = c24

# Builders and settings.
def c25(c):
    probes = [gendms.cps(t) for t in genbm.SETTING_PROBES]
    bms = [{"files": genbm.files_json(genbm.settings_config(k))} for k in (1, 2)]
    # Foldings that show in the probes, and rules that tell the tables apart.
    letters = "abcdefghijklmnopqrstuvwxyz"
    tables = ["".join('"%s" "%d" "%d" "%d"\n' % (x, (i + k) % 9, (i * k) % 7, (i + 2 * k) % 8) for i, x in enumerate(letters)) + "ö=s\né=t\nb=k\n" for k in (1, 2)]
    cfgs = c.write_cfgs(dms=[gendms.cps(t) for t in tables], bm=bms, embedded=True)
    dprobes = [gendms.cps(t) for t in ("öben", "Schwartz", "éab", "Müllöw", "ßâț")]
    for kind, ps in (("bm", probes), ("dms", dprobes)):
        K = kind.title()
        hs = c.behaviours("MC_Builders", "MC_Builders" + K) + c.simulate("MC_Builders", "MC_Builders%sSim" % K, n(400, 4000), 20)
        c.conform_cases("ConfBuild", [dict(h, op="bld", kind=kind, probes=ps) for h in hs], cfgs=cfgs, name="histories of builders")
    # The probes tell the settings apart, or the rest would say nothing.
    encs = [{"alg": "bm", "how": "new", "cfg": k, "nt": nt, "rt": rt, "concat": co, "max": m}
            for k in (0, 1, 2) for nt in genbm.NTS for rt in ("approx", "exact") for co in (True, False) for m in (3, 20, 21) if k > 0 or m == 3]
    c.conform_cases("ConfBuild", [{"op": "bldref", "encs": encs, "probes": probes},
                                  {"op": "bldref", "encs": [{"alg": "dms", "how": "new", "cfg": k, "fold": f} for k in (0, 1, 2) for f in (True, False)], "probes": dprobes}],
                    cfgs=cfgs, name="settings show")
    cases = []
    pools = {a: c.pool([("words:" + a, 600)], cfgs) for a in ALGS + ["dms"]}
    for a in sorted(pools):
        es = [x["enc"] for x in pools[a]]
        es += [dict(e, map=e["map"][:-1] + [e["map"][-1] + 1]) for e in es if e["how"] == "new" and "map" in e][:60]
        for _ in range(n(500, 4000)):
            cases.append({"op": "cfgeq", "a": c.rng.choice(es), "b": c.rng.choice(es)})
    c.conform_cases("ConfBuild", cases, cfgs=cfgs, name="equality of encoders")
PLAN["C25"] = c25

# Models: the machines explored exhaustively on words of a few pieces, and all behaviours replayed.
import mcin
def mc_encode(prop, algs, rounds):
    def f(c):
        for alg in algs:
            for k in range(n(*rounds)):
                c.model("MC_Encode", inp=mcin.encode(c.rng, alg, n(7, 8), n(6, 7), max=n(3, 4)), name=alg)
            c.model("MC_Encode", "MC_EncodeLive", inp=mcin.encode(c.rng, alg, 3, 3, max=n(2, 3)), name=alg)
    then(prop, f)
for p, a in (("C02", ["sdx"]), ("C03", ["rsx"]), ("C04", ["col"]), ("C06", ["met"]), ("C07", ["dmp"]), ("C09", ["mra"]), ("C11", ["nys"]), ("C12", ["phx"])):
    mc_encode(p, a, (2, 8))
mc_encode("C05", ["cav1", "cav2"], (1, 5))
mc_encode("C08", ["met", "dmp", "nys", "phx"], (1, 3))
def mc_compare(c):
    for k in range(n(2, 10)): c.model("MC_Compare", inp=mcin.compare(c.rng, n(5, 6), n(4, 6), 2))
then("C10", mc_compare)
def mc_dms(c):
    for k in range(n(2, 8)):
        texts = gendms.tables(c.rng, 12)
        emb = open(os.path.join(genbm.DATA, "dmrules.txt"), encoding="utf8", newline="").read()
        c.model("MC_Dms", inp=mcin.dms(c.rng, [emb] + texts, n(7, 8), 3), cfgs=c.write_cfgs(dms=[gendms.cps(t) for t in texts]))
then("C13", mc_dms)
def mc_dmstext(c):
    for k in range(n(2, 8)): c.model("MC_DmsText", inp=mcin.dmstext(c.rng, n(11, 14), 4))
then("C14", mc_dmstext)
def mc_bm(c):
    for k in range(n(1, 6)):
        cs = [genbm.config(c.rng) for _ in range(8)]
        c.model("MC_Bm", inp=mcin.bm(c.rng, n(4, 6), n(7, 9), 3), cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)} for f, _ in cs]))
then("C15", mc_bm)
then("C16", mc_bm)
def mc_bmname(c):
    for k in range(n(1, 6)):
        f, _ = genbm.name_config(c.rng)
        c.model("MC_BmName", inp=mcin.bmname(c.rng, n(5, 8), n(11, 14), 3), cfgs=c.write_cfgs(bm=[{"files": genbm.files_json(f)}]))
then("C17", mc_bmname)
def mc_bmtext(c):
    for k in range(n(1, 4)):
        for kind in ("languages", "lang", "rules"):
            inp, fix = mcin.bmtext(c.rng, kind, n(9, 14), 3)
            c.model("MC_BmText", inp=inp, fix=fix, name=kind)
then("C18", mc_bmtext)
def mc_lset(c): c.model("MC_Lset", inp=mcin.lset(c.rng, n(4, 5)))
then("C19", mc_lset)
def mc_chars(c):
    for k in range(n(2, 6)): c.model("MC_Chars", inp=mcin.chars(c.rng, n(4, 5), 4))
then("C20", mc_chars)

CONF = "TLA+ specification of the algorithm as a state machine, model checked with TLC; its behaviours replayed on the real code, and recorded calls of the real code checked against it by TLC"
RELC = "TLA+ specification of how observations of the code relate to each other; recorded observations of the real code checked by TLC"
TRUST = " Trusts TLC, the harness that records the calls, and the Unicode tables of the Rust standard library."
NOTES = {p: (CONF, "TLC explores the machine on every text of a few pieces (chosen by the seed, around the rules) and all those behaviours are replayed on the code; every recorded call on many more generated inputs (all short words included) must be exactly what the specification computes." + TRUST) for p in PLAN}
NOTES["C01"] = ("TLA+ specification of the type of every result, model of termination (TLC), and recorded calls of the real code checked by TLC: every call ends with a return of a value of its type", "Millions of calls; records of calls that do not return and a sample of the others are judged by TLC." + TRUST)
NOTES["C22"] = ("TLA+ model of call histories (TLC, exhaustive small instances and simulation): histories replayed with real threads and checked against the model", "Schedules inside a call are those the machine happens to take." + TRUST)
for p in ("C08", "C21", "C23"):
    NOTES[p] = (RELC, "The relation must hold on every recorded observation." + TRUST)
NOTES["C08"] = (RELC + "; the machines with limits model checked with TLC and replayed", NOTES["C08"][1])
NOTES["C24"] = ("TLA+ specification of names, of the texts of language sets and of errors; recorded calls of the real code checked by TLC", "Every recorded text must be exactly what the specification says, on generated names, sets, rule texts and rule files." + TRUST)
NOTES["C25"] = ("TLA+ model of histories of builders (TLC, exhaustive small instances and simulation): histories replayed on the real code, and every observation checked by TLC against the model", "Settings are observed by probes whose results tell all settings apart, and by ==." + TRUST)
