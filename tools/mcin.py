"""What the models (MC_*.tla) are checked on."""
import gendms, genbm, frags
from gendms import cps
LETTERS = "abcdefghijklmnopqrstuvwxyz"
_frags = {}
def pieces(r, alg, few, letters, odd=1):
    """A few fragments of the rules, a few letters."""
    if not _frags: _frags.update(frags.frags())
    f = _frags[alg]
    fs = r.sample(f, min(few, len(f)))
    # Letters of the fragments are the more interesting ones.
    near = sorted(set("".join(fs).lower()) & set(LETTERS))
    fs += r.sample(near, min(letters // 2, len(near)))
    fs += r.sample(LETTERS, letters - letters // 2)
    fs += r.sample(["é", " ", "ß", "-", "İ", "日", "Ä", "ñ", "ç", "'", "A", "S"], odd)
    return [cps(x) for x in sorted(set(fs))]
def encs(r, alg):
    n = lambda **k: dict({"alg": alg, "how": "new"}, **k)
    m = lambda: cps("".join(r.choice("0123456-") for _ in range(26)))
    if alg == "sdx": return [{"alg": "sdx", "how": "default"}, {"alg": "sdx", "how": "genealogy"}, dict(n(), map=m(), hw=r.random() < 0.5)]
    if alg == "rsx": return [{"alg": "rsx", "how": "default"}, dict(n(), map=m())]
    if alg in ("met", "dmp"): return [n(max=-1), n(max=r.choice([1, 2, 3])), {"alg": alg, "how": "default"}]
    if alg == "nys": return [n(strict=True), n(strict=False)]
    if alg == "phx": return [n(max=30), n(max=r.choice([1, 2, 3])), {"alg": alg, "how": "default"}]
    return [n()]
def encode(r, alg, few, letters, odd=1, max=3):
    return {"encs": encs(r, alg), "frags": pieces(r, alg, few, letters, odd), "max": max}
def compare(r, few, letters, max):
    return {"frags": pieces(r, "mra", few, letters), "max": max}
def dms_pieces(r, text, k):
    ps = gendms.pats(text)
    return [cps(x) for x in sorted(set(r.sample(ps, min(k, len(ps))) + r.sample(["a", "e", "m", "n", "nm", "mn", "S", "é", " ", "x", "h", "ß"], 3)))]
def dms(r, texts, k, max):
    """texts: the embedded rules first."""
    return {"frags": [dms_pieces(r, t, k) for t in texts], "max": max}
RULE_PIECES = ['"', '"a" ', '"b" "1" "2" "3"', '"ab" "1|2" "3" "4"', "//", "/*", "*/", "*", "/", "\n", "\r\n", "\r", " ", "\t", "a=b", "é=a", "=", "a", '"a" "1" "1" "1"\n', '\\"', "b=c\n", "// x\n", "/* x\n*/", '"" "1" "1" "1"']
def dmstext(r, k, max):
    fs = ["\n"] + r.sample([x for x in RULE_PIECES if x != "\n"], k - 1)
    return {"frags": [cps(x) for x in sorted(set(fs))], "max": max, "ins": [cps(x) for x in ("ab", "aba", "éb", "c")]}
def lset(r, n): return {"frags": [cps(x) for x in r.sample(["english", "french", "any", "é", "", "zulu"], n)], "max": 0}
def chars(r, n, max): return {"frags": r.sample([97, 233, 26085, 128512, 223, 65, 769, 0x10FFFF, 0x7FF, 0x800, 0xFFFF], n), "max": max}
def bm_opts(r, n, nts=genbm.NTS):
    out = []
    while len(out) < n:
        o = {"nt": r.choice(nts), "rt": r.choice(["approx", "exact"]), "concat": r.random() < 0.5, "max": r.choice([20, 20, 0, 1, 2, 3, 5])}
        if o not in out: out.append(o)
    return out
def bm(r, n, k, max):
    fs = r.sample(list("abces") * 2 + ["é", "ab", "sc", "sé", "日", "ß", "A"], k)
    return {"frags": [cps(x) for x in sorted(set(fs))], "max": max, "opts": bm_opts(r, n)}
def bmname(r, n, k, max):
    fs = [" "] + r.sample(genbm.PREFIXES, k - 4) + r.sample(["'", "-", "\t", "  "], 1) + r.sample(["ab", "xa", "ya", "é", "x", "o", "D'", "Van", "De La "], 2)
    return {"frags": [cps(x) for x in sorted(set(fs))], "max": max, "opts": bm_opts(r, n)}
BM_PIECES = {
    "languages": ["any\n", "english\n", "\n", "any", "french", " ", "\t", "// x", "/*", "*/", "\r\n", "\r", "é", "a1", "-", "/", "*", "/* x\n */"],
    "lang": ["a english true\n", "b french false\n", "^a", " ", "english+french", " true", " false", "\n", "//", "/*", "*/", "[", "(b|c)", "x", "\r\n", "\t", "é english true", "$ any false"],
    "rules": ['"a" "" "" "b"\n', '"b" "^" "" "c"', '"ab" "" "$" "(b|c[english])"', '"', '" ', '"a" "" ', "\n", "\r\n", " ", "#include shared", "#include shared-b_2\n", "#include", " nothere", "//", "/*", "*/", "*", "/", "é", "\t",
              '"" "" "" "b"', '"a" "[" "" "b"', '"a" "" "" "b["', '"a" "" "" "(b"', '/* x\n */', '"b" "" "" "e"\n', ' // x']}
def bmtext(r, kind, k, max):
    pool = BM_PIECES[kind]
    fs = ["\n"] + r.sample([x for x in pool if x != "\n"], k - 1)
    files = {"shared.txt": '"a" "" "" "s"\n"c" "" "" "d"\n', "shared-b_2.txt": '// x\n#include shared\n"b" "" "" "z"\n'}
    for nt in genbm.NTS:
        files[nt + "_languages.txt"] = "any\nenglish\n"
        files[nt + "_lang.txt"] = ""
        for l in ("any", "english", "french", "common"):
            for rt in ("approx", "exact", "rules"):
                if (l, rt) != ("common", "rules"): files["%s_%s_%s.txt" % (nt, rt, l)] = '"a" "" "" "%s"\n' % l[0] if rt == "rules" else ""
    own = {"languages": "gen_languages.txt", "lang": "gen_lang.txt", "rules": "gen_rules_any.txt"}[kind]
    del files[own]
    probes = [{"nt": "gen", "rt": "approx", "concat": True, "max": 20, "in": cps(w), "langs": genbm.GUESS} for w in ("ab", "b", "abcab", "x")]
    if kind == "languages": probes = []
    inp = {"kind": kind, "files": {f: cps(t) for f, t in files.items()}, "probes": probes, "frags": [cps(x) for x in sorted(set(fs))], "max": max}
    def fix(c):
        if not genbm.understood("".join(map(chr, c["text"]))): return None
        fl = dict(inp["files"]); fl[own] = c.pop("text")
        return dict(c, names=sorted(fl), files=fl, probes=probes)
    return inp, fix
