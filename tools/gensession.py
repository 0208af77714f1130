"""Concrete encoders and calls for abstract histories."""
def calls_of(r, alg, e, a, b):
    """A call on an encoder with texts a and b."""
    k = r.random()
    if alg in ("sdx", "rsx") and k < 0.2: return {"op": "dif", "a": a, "b": b}
    if k < 0.35: return {"op": "eq", "a": a, "b": b}
    if alg == "dmp": return {"op": "dmpeq", "a": a, "b": b, "alt": r.random() < 0.5} if k < 0.5 else {"op": "dmpx", "in": a}
    if alg == "dms": return {"op": "dmsx", "in": a}
    if alg == "bm":
        l = {"k": "guess", "s": []} if k < 0.8 else {"k": r.choice(["any", "none"]), "s": []}
        return {"op": "bmx", "in": a, "langs": l}
    return {"op": "enc", "in": a}
def near(r, w):
    """A text that is the same but for something."""
    w = list(w)
    k = r.random()
    if k < 0.3 or not w: w.append(r.choice([97, 101, 115, 83, 32, 233]))
    elif k < 0.5: w[-1] = r.choice([97, 110, 115, 104, 114])
    elif k < 0.7: w[r.randrange(len(w))] = r.choice([97, 110, 115, 104, 114, 67])
    elif k < 0.8 and len(w) > 1: i = r.randrange(len(w) - 1); w[i], w[i + 1] = w[i + 1], w[i]
    elif k < 0.9: w = [c ^ 32 if 65 <= c & ~32 <= 90 else c for c in w]
    else: w.insert(0, r.choice([65, 115, 32, 72]))
    return w
def sessions(r, hists, pools):
    out = []
    algs = sorted(pools)
    for h in hists:
        alg = r.choice(algs)
        pool = pools[alg]
        encs = []
        for _ in range(40):
            e = r.choice(pool)["enc"]
            if e not in encs: encs.append(e)
            if len(encs) == 3: break
        while len(encs) < 3: encs.append(encs[0])
        w = r.choice(pool)["in"][:12 if alg == "bm" else 40]
        ws = [w, near(r, w), near(r, w), r.choice(pool)["in"][:12 if alg == "bm" else 40], near(r, near(r, w))]
        calls = [calls_of(r, alg, None, x, r.choice(ws)) for x in ws]
        out.append({"op": "ses", "cfgs": encs, "calls": calls, "hist": h["hist"]})
    return out
def calls(r, pool, count):
    """Calls with encoder: the same texts for several encoders, and texts close to each other."""
    out, seen = [], set()
    base = r.sample(pool, max(1, count // 6))
    while len(out) < count:
        x = r.choice(base)
        w = x["in"][:60] if x["enc"]["alg"] != "bm" else x["in"][:14]
        q = w if r.random() < 0.5 else near(r, w)
        c = dict(calls_of(r, x["enc"]["alg"], None, q, near(r, q)), enc=r.choice(base)["enc"])
        out.append(c)
    return out
