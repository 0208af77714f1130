"""Beider-Morse configurations and words for them."""
import os, re, json
DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "data")
def cps(s): return [ord(c) for c in s]
NTS = ("ash", "gen", "sep")
NAMES = """angelo d'angelo renault washington schwarzenegger mickiewicz przybylski rosenfeld goldenberg levi ben-levi da-vinci vonneumann
 dellacorte eichmann jurgens müller garçon françois o'brien mcdonald fitzgerald nuñez muñoz peña ångström szczepański łódź bălcescu ceaușescu
 wojciechowski kowalski chopin szymanowski rachmaninow tchaikovsky papadopoulos güiraldes vandijk vandermeer vanbuuren ouweneel joão gonçalves
 beaujolais deschamps girault malesherbes petitjean trudeau oultremont heinrich jäger köhler weiss strauß schmidt wagner yılmaz öztürk çelik şahin
 horváth nagy szabó kovács novák dvořák svoboda hašek maccabee benzion barzilai cohen katz steinmetz trachtenberg uhrbach wiktor zhukov ivanov
 jackson smith taylor johnson house light wright knight abdulrahman alhambra elkayam ventura spinoza hernandez rodriguez vazquez ximenez""".split()
PREFIXES = ["da", "dal", "de", "de la", "del", "dela", "della", "des", "di", "do", "dos", "du", "van", "von", "d'", "al", "el", "bar", "ben", "ibn"]

def folder(name):
    d = os.path.join(DATA, name)
    return {f: open(os.path.join(d, f), encoding="utf8", newline="").read() for f in sorted(os.listdir(d))}
_cache = {}
def pats(name, nt):
    """The patterns, alone and with a bit of context, of the rules of a folder."""
    if (name, nt) not in _cache:
        out = set()
        for f, t in folder(name).items():
            if f.startswith(nt + "_rules"):
                for p, l, r in re.findall(r'(?m)^[ \t]*"([^"\n]+)"\s+"([^"\n]*)"\s+"([^"\n]*)"', t):
                    first = lambda x: re.sub(r"\[\^?([^\]])[^\]]*\]", r"\1", x)
                    a = re.sub(r"[(^$)*+?]|\|.*", "", first(l))[-1:]
                    b = re.sub(r"[(^$)*+?]|\|.*", "", first(r))[:1]
                    out |= {p, a + p + b}
        _cache[name, nt] = sorted(out)
    return _cache[name, nt]
def lang_frags(files, nt):
    out = set()
    for l in files.get(nt + "_lang.txt", "").splitlines():
        m = re.match(r"(\S+) \S+ (true|false)", l)
        if m:
            s = re.sub(r"\[\^?([^\]])[^\]]*\]", r"\1", m.group(1))
            s = re.sub(r"[(^$)*+?]", "", s)
            for a in s.split("|"):
                if a: out.add(a)
    return sorted(out)

def word(r, ps, extra, letters="aeioubcdfghjklmnprstvwxyzéüß", cap=12):
    k = r.random()
    if k < 0.28: w = r.choice(NAMES)
    elif k < 0.7:
        w = "".join(r.choice(ps) if r.random() < 0.75 else r.choice(letters) for _ in range(r.randrange(1, 5)))
    elif k < 0.8 and extra:
        w = "".join(r.choice(extra) if r.random() < 0.6 else r.choice(letters) for _ in range(r.randrange(1, 4)))
    else: w = "".join(r.choice(letters) for _ in range(r.randrange(0, 9)))
    if r.random() < 0.3 and w:
        i = r.randrange(len(w) + 1)
        q = r.random()
        if q < 0.4: w = w[:i] + r.choice(letters) + w[i:]
        elif q < 0.7: w = w[:i] + w[i + 1:]
        else: w = w[:i] + r.choice(letters) + w[i + 1:]
    if r.random() < 0.03: w += r.choice("日Ως😀İ¿\u0301")
    return w[:cap]
def recase(r, w):
    k = r.random()
    return w if k < 0.45 else w.title() if k < 0.75 else w.upper() if k < 0.9 else "".join(c.upper() if r.random() < 0.5 else c for c in w)
def name(r, one):
    """A name: words with prefixes and separators."""
    k = r.random()
    if k < 0.72: s = one()
    elif k < 0.82: s = r.choice(PREFIXES) + r.choice([" ", " ", "", "-"]) + one()
    elif k < 0.92: s = one() + r.choice([" ", "-", "  ", "'", " - "]) + one()
    else: s = r.choice(["", " ", "'"]) + r.choice(PREFIXES) + r.choice([" ", ""]) + r.choice(PREFIXES) + r.choice([" ", "-"]) + one() + r.choice(["", " ", "'"])
    return recase(r, s[:16])

def enc(r, cfg, nts=NTS, rts=("approx", "exact"), maxes=(20, 20, 20, 20, 1, 2, 3, 5, 8, 40, 0)):
    if r.random() < 0.05: return {"alg": "bm", "how": "default", "cfg": cfg, "nt": "gen", "rt": "approx", "concat": True, "max": 20}
    return {"alg": "bm", "how": "new", "cfg": cfg, "nt": r.choice(nts), "rt": r.choice(rts), "concat": r.random() < 0.6, "max": r.choice(maxes)}
GUESS = {"k": "guess", "s": []}
def given(r, langs, single=True):
    """Languages as they may be given to an encoder."""
    k = r.random()
    if k < 0.1: return {"k": "any", "s": []}
    if k < 0.15: return {"k": "none", "s": []}
    if k < 0.5 and single: return {"k": r.choice(["some", "from", "vec"]), "s": [cps(r.choice(langs))]}
    pool = list(langs) + ["klingon"] + (["english", "french", "spanish"] if len(langs) < 2 else [])
    m = sorted(set(r.choice(pool) for _ in range(r.choice([0, 2, 2, 3, 4]))))
    if len(m) == 1 and m[0] not in langs: m = []
    return {"k": r.choice(["some", "from", "vec"]), "s": [cps(x) for x in m]}
def case(e, s, langs=GUESS): return {"op": "bmx", "enc": e, "in": cps(s), "langs": langs}

def known_cases(name_, cfg, langs, r, count, given_pct=0.4):
    """Cases for the embedded (cfg 0) or the full configuration."""
    files = folder(name_)
    out = []
    for _ in range(count):
        e = enc(r, cfg)
        nt = e["nt"]
        s = name(r, lambda: word(r, pats(name_, nt), lang_frags_of(name_, nt, files)))
        ls = langs[nt]
        out.append(case(e, s, given(r, ls) if r.random() < given_pct else GUESS))
    return out
_lf = {}
def lang_frags_of(n, nt, files):
    if (n, nt) not in _lf: _lf[n, nt] = lang_frags(files, nt)
    return _lf[n, nt]
def languages(files):
    """The languages of every name type of a folder (only for making cases)."""
    return {nt: ["any"] if nt + "_languages.txt" not in files else re.findall(r"(?m)^([a-z]+)\s*(?://.*)?$", re.sub(r"/\*.*?\*/", "", files[nt + "_languages.txt"], flags=re.S)) for nt in NTS}

# Words directed at single rules: the context and pattern of a rule of a *_rules_* file, or
# what the rules before map to the context and pattern of a rule of a final file.
import random, warnings
try: import re._parser as sre
except ImportError: import sre_parse as sre
def sample(r, rx):
    """A text a context matches: (starts at the start, text, ends at the end)."""
    begin, end = [False], [False]
    def one(t):
        out = ""
        for op, a in t:
            op = str(op)
            if op == "LITERAL": out += chr(a)
            elif op == "NOT_LITERAL": out += r.choice([c for c in "aeioubdgklnrst" if ord(c) != a])
            elif op == "ANY": out += r.choice("aeiounrst")
            elif op == "IN":
                neg = str(a[0][0]) == "NEGATE"; cs = set()
                for o, v in a:
                    if str(o) == "LITERAL": cs.add(chr(v))
                    elif str(o) == "RANGE": cs |= {chr(x) for x in range(v[0], v[1] + 1)}
                out += r.choice(sorted(set("aeioubcdfghjklmnprstvwz") - cs) if neg else sorted(cs)) if cs else ""
            elif op == "BRANCH": out += one(r.choice(a[1]))
            elif op == "SUBPATTERN": out += one(a[-1])
            elif op in ("MAX_REPEAT", "MIN_REPEAT"):
                for _ in range(min(r.randrange(a[0], a[0] + 2), int(a[1]))): out += one(a[2])
            elif op == "AT":
                if str(a) == "AT_BEGINNING": begin[0] = True
                else: end[0] = True
        return out
    try: t = one(sre.parse(rx))
    except Exception: t = ""
    return begin[0], t, end[0]
def rule_lines(text):
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    return re.findall(r'(?m)^[ \t]*"([^"\n]+)"\s+"([^"\n]*)"\s+"([^"\n]*)"\s+"([^"\n]*)"', text)
def alternatives(ph):
    return [x for x in (re.sub(r"\[[^\]]*\]", "", a) for a in re.sub(r"^\(|\)$", "", ph).split("|")) if x]
class Directed:
    def __init__(self, name_):
        fs = folder(name_)
        self.rules = {f[:-4]: rule_lines(t) for f, t in fs.items() if "_lang" not in f}
        for f, t in fs.items():
            for i in re.findall(r"(?m)^[ \t]*#include\s+(\S+)", t): self.rules[f[:-4]] = self.rules[f[:-4]] + self.rules.get(i, rule_lines(fs.get(i + ".txt", "")))
        self.inv = {}
        for k, rs in self.rules.items():
            d = {}
            for p, _, _, ph in rs:
                for a in alternatives(ph): d.setdefault(a, []).append(p)
            self.inv[k] = d
    def back(self, r, k, s):
        """A text the rules of a file may map to this one."""
        inv = self.inv.get(k, {}); out = ""; i = 0
        while i < len(s):
            # The longest parts most often.
            ks = [n for n in range(1, len(s) - i + 1) if s[i:i + n] in inv]
            same = not ks or ("_approx" in k or "_exact" in k) and r.random() < 0.5
            n = 1 if same else ks[-1] if r.random() < 0.5 else r.choice(ks)
            out += s[i] if same else r.choice(inv[s[i:i + n]][:6] if r.random() < 0.6 else inv[s[i:i + n]]); i += n
        return out
    def word(self, r, k, rule, lang):
        p, l, x, _ = rule
        b, ls, _ = sample(r, l); _, rs, e = sample(r, x)
        s = ls + p + rs
        nt = k[:3]
        if "_rules_" not in k:
            rt = k.split("_")[1] if r.random() < 0.5 or k.count("_") == 2 else r.choice(["approx", "exact"])
            if not k.endswith("_common") and r.random() < 0.7: s = self.back(r, "%s_%s_common" % (nt, rt), s)
            s = self.back(r, "%s_rules_%s" % (nt, lang), s)
        if not b: s = r.choice(["", "a", "e", "b", "ma", "os", "in", "r"]) + s
        if not e: s += r.choice(["", "a", "e", "n", "er", "ob", "is", "t"])
        return s
def chosen_cases():
    """Short words chosen (ruledata.py) so that nearly every line of the embedded rules matters to one of them."""
    out = []
    for l in open(os.path.join(DATA, "bm-words.txt"), encoding="utf8"):
        nt, rt, m, w, ls = l.rstrip("\n").split(" ")
        g = GUESS if ls == "-" else {"k": "any", "s": []} if ls == "*" else {"k": "some", "s": [cps(x) for x in ls.split("+")]}
        out.append(case({"alg": "bm", "how": "new", "cfg": 0, "nt": nt, "rt": rt, "concat": True, "max": int(m)}, w, g))
    return out
_directed = {}
def directed_cases(name_, cfg, langs, r, per_rule, cap=16, top=None):
    """Cases for every rule of the embedded (cfg 0) or the full configuration."""
    d = _directed.setdefault(name_, None) or Directed(name_)
    _directed[name_] = d
    jobs = [(k, rule) for k in sorted(d.rules) for rule in d.rules[k] for _ in range(per_rule)]
    if top and len(jobs) > top: jobs = r.sample(jobs, top)
    out = []
    for k, rule in jobs:
        nt = k[:3]; last = k.split("_")[-1]
        lang = r.choice(langs[nt]) if last == "common" else last
        if lang not in langs[nt] and lang != "any": lang = "any"
        e = {"alg": "bm", "how": "new", "cfg": cfg, "nt": nt, "rt": "exact" if "_exact_" in k and "_approx" not in k else r.choice(["approx", "exact"]) if "_rules_" in k or "exact_approx" in k else "approx",
             "concat": True, "max": r.choice([20, 20, 20, 50])}
        w = d.word(r, k, rule, lang)[:cap]
        g = GUESS if lang == "any" else {"k": "some", "s": [cps(lang)]}
        if lang == "any":
            # The languages of the alternatives, or all.
            named = sorted(set(re.findall(r"[a-z]+", " ".join(re.findall(r"\[([^\]]*)\]", rule[3])))))
            if named and r.random() < 0.5:
                few = sorted(set(r.sample(named, r.randrange(1, min(2, len(named)) + 1)) + [r.choice([x for x in langs[nt] if x != "any"] or ["klingon"])]))
                if len(few) > 1: g = {"k": "some", "s": [cps(x) for x in few]}
            elif len(langs[nt]) > 1: g = {"k": "any", "s": []}
        out.append(case(e, w, g))
    return out

# Synthetic configurations ------------------------------------------------
LANGS = ["any", "english", "french", "German", "polish"]
L = "abces"
def pattern(r):
    k = r.random()
    if k < 0.1: return r.choice(["é", "ß", "日", "sé", "éa", " ", "'", "a b", "-", "😀"])
    return "".join(r.choice(L) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3])))
def klass(r):
    s = "".join(sorted(set(r.choice(L + "é") for _ in range(r.randrange(1, 4)))))
    return "[" + r.choice(["", "", "^"]) + s + "]"
def context(r, side):
    k = r.random()
    anchor = "^" if side == "left" else "$"
    put = lambda s: anchor + s if side == "left" else s + anchor
    if k < 0.34: return ""
    if k < 0.44: return anchor
    if k < 0.56: return "".join(r.choice(L) for _ in range(r.randrange(1, 3)))
    if k < 0.62: return put("".join(r.choice(L + "é") for _ in range(r.randrange(1, 3))))
    if k < 0.78: return klass(r)
    if k < 0.84: return put(klass(r))
    if k < 0.88: return klass(r) + klass(r)
    if k < 0.90: return put(klass(r) + r.choice(L))
    if k < 0.92: return r.choice(L) + klass(r) + r.choice(["", "+", "*", "?"]) + r.choice(["", r.choice(L)])
    if k < 0.95: return "(" + r.choice(L) + "|" + klass(r) + r.choice(["", r.choice(L)]) + ")" + r.choice(["", r.choice(L)])
    if k < 0.97: return "[a-c]" + r.choice(["", "e", "?"])
    if k < 0.985: return r.choice(["(" + r.choice(L) + "|" + r.choice(L) + ")", r.choice(L) + "+", ".", "a.", "é"])
    return put("(" + klass(r) + "|" + r.choice(L) + ")")
def phoneme_text(r):
    return r.choice(["", "", "a", "b", "c", "e", "s", "S", "Z", "ab", "sc", "é", "e", "1", "日", "ae"])
def phoneme(r, langs):
    t = phoneme_text(r)
    if r.random() < 0.3: t += "[" + "+".join(r.choice(langs + ["klingon"]) for _ in range(r.choice([1, 1, 2, 2, 3]))) + "]"
    return t
def odd_phonemes(r, langs):
    """What is no mistake, but nobody writes."""
    a, b = r.choice(langs), r.choice(langs + ["klingon"])
    return r.choice(["k[%s][%s]", "(k[%s][%s]|s)", "k[%s+%s]]", "k[%s[%s]", "(k[%s+]|s[+%s])", "(|k[%s]|s[%s])", "(k[%s]|s[%s]|)", "(k[%s]|[%s])", "k[%s+%s+]", "[%s+%s]", "([%s]|[%s])", "k[ %s+ %s ]", "(k[%s]||s[%s])"]) % (a, b) \
        if r.random() < 0.6 else r.choice(["k]", "k)", "k|s", "k[]", "k[+]", "(k[]|s)", "(k|s|)", "(|)", "()", "(k)", "((k))", "(k|s)|(s|k)", "k^s", "k$", "k*", "k/s", "k//s", "(k|k)", "(k|s|k)", "k+s", "k\\s"])
def phonemes(r, langs):
    if r.random() < 0.03: return odd_phonemes(r, langs)
    k = r.random()
    if k < 0.45: return phoneme(r, langs)
    return "(" + "|".join(phoneme(r, langs) for _ in range(r.choice([1, 2, 2, 2, 3, 3, 4]))) + ")"
def rule(r, langs, p=None):
    b = lambda: r.choice([" ", " ", " ", " ", "  ", "\t"])
    return '"%s"%s"%s"%s"%s"%s"%s"%s' % (p if p is not None else pattern(r), b(), context(r, "left"), b(), context(r, "right"), b(), phonemes(r, langs),
                                          r.choice(["", "", "", "", " ", " // note", "//x", "\t"]))
def noise(r):
    k = r.random()
    if k < 0.35: return r.choice(["", "", " ", "\t"])
    if k < 0.7: return r.choice(["// comment", "//", "  // indented", '// "a" "" "" "b"', "// é"])
    body = "".join(r.choice(["x", " ", "\n", "\n", "*", "/", '"', '"a" "" "" "b"\n', "#include x\n", "é", "any\n"]) for _ in range(r.randrange(0, 6)))
    body = body.replace("*/", "* /")
    if body.endswith("*"): body += " "
    return "/*" + body + "*/" + r.choice(["", " ", " // more"])
def join(r, ls, crlf=False):
    return "".join(l + ("\r\n" if crlf and r.random() < 0.5 else "\n") for l in ls)
def rules_text(r, langs, n, includes=(), noisy=0.15):
    ls = []
    for _ in range(n):
        ls.append(rule(r, langs) if r.random() > noisy else noise(r))
    for i in includes: ls.insert(r.randrange(len(ls) + 1), "#include " + i + r.choice(["", " ", " // x"]))
    return join(r, ls, r.random() < 0.1)
def regex(r):
    k = r.random()
    lit = lambda: "".join(r.choice(L + "é") for _ in range(r.randrange(1, 4)))
    if k < 0.25: return lit()
    if k < 0.4: return "^" + lit()
    if k < 0.55: return lit() + "$"
    if k < 0.65: return klass(r)
    if k < 0.72: return "^" + klass(r)
    if k < 0.79: return klass(r) + "$"
    if k < 0.86: return "(" + lit() + "|" + lit() + ")" + r.choice(["", "$", klass(r)])
    if k < 0.93: return lit() + klass(r) + r.choice(["", "*", "+", "?"]) + r.choice(["", lit()])
    if k < 0.97: return "^" + lit() + r.choice([".", ".*", ""]) + lit() + "$"
    return r.choice(["a[^ce]$", "^(a|b|c)", "(a|b)*s", "s+$", "^$", ".", "^[^abce]", "(^a|s$)", "ab?c?e", "(ab|c)+s"])
def lang_text(r, langs, n):
    ls = []
    for _ in range(n):
        if r.random() < 0.12: ls.append(noise(r)); continue
        some = "+".join(r.choice(langs + ["klingon"]) for _ in range(r.choice([1, 1, 2, 2, 3])))
        ls.append("%s %s %s%s" % (regex(r), some, r.choice(["true", "true", "false"]), r.choice(["", "", "", " ", " // x"])))
    return join(r, ls)
def langs_text(r, langs):
    ls = list(langs) if r.random() < 0.5 else r.sample(langs, len(langs))
    ls = [l + r.choice(["", "", "", " ", " // x"]) for l in ls]
    if r.random() < 0.4: ls.insert(r.randrange(len(ls) + 1), noise(r))
    return join(r, ls)
SHARED = [("shared_a", "shared-b_2")] * 4 + [("Shared_A", "shared_a"), ("sharedé", "shared日本"), ("shared²", "shared٣"), ("SHARED", "sHared-")]
def config(r, maxlangs=4, size=12, cyclic=0):
    """The files of a valid configuration, and its languages."""
    files, langs = {}, {}
    one, two = r.choice(SHARED)
    files[one + ".txt"] = rules_text(r, LANGS, r.randrange(1, 5))
    files[two + ".txt"] = rules_text(r, LANGS, r.randrange(1, 4), [one] if r.random() < 0.5 else [])
    if r.random() < cyclic: files[one + ".txt"] += "#include " + r.choice([one, two]) + "\n"
    for nt in NTS:
        ls = ["any"] + r.sample(LANGS[1:], r.randrange(0, maxlangs))
        langs[nt] = ls
        files[nt + "_languages.txt"] = langs_text(r, ls)
        files[nt + "_lang.txt"] = lang_text(r, ls, r.randrange(0, 8))
        for rt in ("approx", "exact", "rules"):
            for l in ls + ([] if rt == "rules" else ["common"]):
                inc = []
                if r.random() < 0.25: inc = [r.choice([one, two])]
                k = r.randrange(3, size) if rt == "rules" else (0 if r.random() < 0.25 else r.randrange(1, max(2, size // 2)))
                files["%s_%s_%s.txt" % (nt, rt, l)] = rules_text(r, ls, k, inc)
    return files, langs
def mix_config(r):
    """Few letters, short rules, and languages everywhere: phonemes merge, split and disappear for their languages."""
    files, langs = {}, {}
    pool = LANGS[1:] + ["klingon"]
    def ls_(): return "[" + "+".join(r.sample(pool, r.choice([1, 1, 2, 2, 3, 4]))) + "]"
    def ph(letters, wild):
        one = lambda: r.choice(letters) + (r.choice(letters) if r.random() < 0.15 else "") + ("" if r.random() < wild else ls_())
        k = r.choice([1, 1, 2, 2, 3])
        return one() if k == 1 else "(" + "|".join(one() for _ in range(k)) + ")"
    def text(pats, letters, wild, miss):
        out = ""
        for p in pats:
            if r.random() < miss: continue
            if r.random() < 0.2: out += '"%s" "%s" "%s" "%s"\n' % (p, r.choice(["", "^", "[a-t]$"[:5]]), r.choice(["", "$"]), ph(letters, wild))
            out += '"%s" "" "" "%s"\n' % (p, ph(letters, wild))
        return out
    for nt in NTS:
        langs[nt] = ["any"] + LANGS[1:]
        files[nt + "_languages.txt"] = "\n".join(langs[nt]) + "\n"
        files[nt + "_lang.txt"] = "".join("%s %s %s\n" % (c, "+".join(r.sample(LANGS[1:], r.choice([1, 2, 2, 3]))), r.choice(["true", "true", "false"])) for c in "abc")
        for rt in ("approx", "exact", "rules"):
            for l in langs[nt] + ([] if rt == "rules" else ["common"]):
                files["%s_%s_%s.txt" % (nt, rt, l)] = text("abc", "pqt", 0.3, 0.05) if rt == "rules" else text("pqt", "pqtuU", 0.5, 0.3)
    return files, langs
def mix_cases(r, langs_list, count, first=1):
    out = []
    for _ in range(count):
        k = r.randrange(len(langs_list))
        e = enc(r, first + k, maxes=(20, 20, 20, 3, 2, 5))
        if e["how"] == "default": continue
        s = "".join(r.choice("abc") for _ in range(r.choice([1, 1, 2, 2, 3, 4])))
        g = GUESS
        if r.random() < 0.7: g = {"k": r.choice(["some", "from", "vec"]), "s": [cps(x) for x in sorted(r.sample(LANGS[1:] + ["klingon"], r.choice([2, 2, 3, 4])))]}
        elif r.random() < 0.3: g = {"k": "any", "s": []}
        out.append(case(e, s, g))
    return out
def far_config(r):
    """Contexts that reach far to either side, and long runs of the same letter."""
    files, langs = {}, {}
    def run(): 
        x = r.choice("ab"); return x * r.randrange(1, 15)
    def left():
        k = r.random()
        if k < 0.15: return ""
        if k < 0.35: return "^" + run()
        if k < 0.45: return run()
        if k < 0.55: return "^" + r.choice(["[ab]+", "[^c]+", "a+", "b+", "[^c]*", ".+b", "a?b*", "[a-b]+c?", "c.*"])
        if k < 0.65: return r.choice(["c[ab]+", "c[^c]*", "ca+", "cb*", "c.+a"])
        if k < 0.8: return "^" + "".join(r.choice("ab") for _ in range(r.randrange(1, 4))) + run()
        if k < 0.9: return "c" + run()
        return "^" + r.choice(["[ab]", "[^c]", "."]) * r.randrange(2, 12)
    def right():
        k = r.random()
        if k < 0.4: return ""
        if k < 0.55: return run() + "$"
        if k < 0.62: return run()
        if k < 0.72: return r.choice(["[ab]+", "[^c]+", "a+", "b+", "[^c]*", "b.+", "a?b*", "c?[a-b]+", ".*c"]) + "$"
        if k < 0.8: return r.choice(["[ab]+c", "[^c]*c", "a+c", "b*c", "a.+c"])
        if k < 0.87: return run() + "".join(r.choice("ab") for _ in range(r.randrange(1, 4))) + "$"
        if k < 0.95: return run() + "c"
        return r.choice(["[ab]", "[^c]", "."]) * r.randrange(2, 12) + "$"
    def text(n, letters, out):
        t = ""
        for x in letters:
            for _ in range(r.randrange(1, n)): t += '"%s" "%s" "%s" "%s"\n' % (x * r.choice([1, 1, 1, 1, 2, 9]), left(), right(), r.choice(out))
            if r.random() < 0.9: t += '"%s" "" "" "%s"\n' % (x, x)
        return t
    for nt in NTS:
        langs[nt] = ["any"]
        files[nt + "_languages.txt"] = "any\n"; files[nt + "_lang.txt"] = ""
        for rt in ("approx", "exact", "rules"):
            for l in ["any"] + ([] if rt == "rules" else ["common"]):
                files["%s_%s_%s.txt" % (nt, rt, l)] = text(12, "abc", "abcpqstu") if rt == "rules" else text(3, "abcpq", "abpqvx")
    return files, langs
def far_cases(r, langs_list, count, first=1):
    out = []
    for _ in range(count):
        e = enc(r, first + r.randrange(len(langs_list)), maxes=(20, 20, 20, 3))
        if e["how"] == "default": continue
        s = ""
        while len(s) < 2 or r.random() < 0.5: s += r.choice("abbaabc") * r.choice([1, 1, 2, 3, 5, 7, 8, 9, 11, 15])
        out.append(case(e, s[:r.choice([8, 12, 16, 24, 40])]))
    return out
def files_json(files): return {k: cps(v) for k, v in files.items()}
def small_word(r, nospace=False):
    k = r.randrange(0, 9) if r.random() < 0.98 else r.randrange(10, 40)
    pool = list("aaabbccceesss") + ["é", "ß", "日", "'", "-", "x"] + ([] if nospace else [" "])
    w = "".join(r.choice(pool) for _ in range(k))
    if r.random() < 0.08: w = r.choice(PREFIXES) + r.choice([" ", ""]) + w
    return recase(r, w)
def config_cases(r, langs_list, count, given_pct=0.5, first=1, maxes=(20, 20, 20, 1, 2, 3, 4, 5, 8, 40, 0)):
    """Words for synthetic configurations first, first + 1..."""
    out = []
    for _ in range(count):
        k = r.randrange(len(langs_list))
        e = enc(r, first + k, maxes=maxes)
        out.append(case(e, small_word(r), given(r, langs_list[k][e["nt"]]) if r.random() < given_pct else GUESS))
    return out

# Language guessing ----------------------------------------------------------
LABELS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
ALPHABET = "abcdefghijklmnopqrstuvwxyzéèêëçßüöäñòóàáâãõøåłńśźżőűğşıαβώжшчאבן '-’日"
def reveal(files, langs):
    """Rules that show the languages of a name in front of its code."""
    for nt in NTS:
        ls = langs[nt]
        lab = {l: LABELS[i] for i, l in enumerate(ls)}
        alt = "(" + "|".join("%s[%s]" % (lab[l], l) for l in ls) + ")"
        for l in ls:
            text = ""
            for c in ALPHABET:
                text += '"%s" "^" "" "%s"\n"%s" "" "" ""\n' % (c, alt if l == "any" else lab[l], c)
            files["%s_rules_%s.txt" % (nt, l)] = text
        for rt in ("approx", "exact"):
            for l in ls + ["common"]: files["%s_%s_%s.txt" % (nt, rt, l)] = ""
    return files
def guess_config_real():
    f = folder("bm-full")
    langs = languages(f)
    keep = {k: v for k, v in f.items() if k.endswith("_lang.txt") or k.endswith("_languages.txt")}
    return reveal(keep, langs), langs
def guess_config(r):
    langs = {nt: ["any"] + r.sample(LANGS[1:], r.randrange(1, 5)) for nt in NTS}
    files = {}
    for nt in NTS:
        files[nt + "_languages.txt"] = langs_text(r, langs[nt])
        files[nt + "_lang.txt"] = lang_text(r, langs[nt], r.randrange(1, 12))
    return reveal(files, langs), langs
def guess_cases(r, files, langs, count, first):
    """files[0] is the real one; configurations first, first + 1..."""
    out = []
    fr = {nt: lang_frags(files[0], nt) for nt in NTS}
    for _ in range(count):
        k = 0 if r.random() < 0.6 else r.randrange(len(files))
        e = enc(r, first + k, maxes=(60,))
        if e["how"] == "default": e = enc(r, first + k, maxes=(60,)); e["how"] = "new"; e["max"] = 60
        if k == 0:
            nt = e["nt"]
            one = lambda: "".join(r.choice(fr[nt]) if r.random() < 0.6 else r.choice(ALPHABET[:44]) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))[:14]
            s = name(r, lambda: r.choice(NAMES) if r.random() < 0.25 else one())
        else: s = small_word(r)
        out.append(case(e, s))
    return out

# Names of several words -----------------------------------------------------
def name_config(r):
    """Rules that show every character they see, and the language they are for."""
    files, langs = {}, {}
    for nt in NTS:
        langs[nt] = ["any", "la", "lb"]
        files[nt + "_languages.txt"] = "any\nla\nlb\n"
        files[nt + "_lang.txt"] = "x la true\ny lb true\n"
        for l in langs[nt]:
            t = ""
            for c in "abcdefghijklmnopqrstuvwxyz'é 日":
                t += '"%s" "" "" "%s"\n' % (c, {"any": "_" if c == " " else c, "la": c.upper() if c != " " else "+", "lb": "(" + c + ")" if c != " " else "="}[l])
            files["%s_rules_%s.txt" % (nt, l)] = t
        for rt in ("approx", "exact"):
            for l in langs[nt] + ["common"]: files["%s_%s_%s.txt" % (nt, rt, l)] = ""
    return files, langs
TOKENS = PREFIXES + ["ab", "xa", "ya", "é", "x", "o", "Van", "D'", "sant'", "l'"]
SEPS = [" ", " ", " ", "-", "'", "", "  ", "\t", "\u00a0", "--", " - "]
def name_cases(r, count, cfg):
    out = []
    def add(s, cfgn=cfg):
        e = enc(r, cfgn, maxes=(20, 20, 3))
        l = GUESS if r.random() < 0.6 else {"k": r.choice(["some", "some", "any", "none"]), "s": []}
        if l["k"] == "some": l["s"] = [cps(x) for x in r.choice([["la"], ["lb"], ["any"], ["la", "lb"], []])]
        out.append(case(e, s, l))
    singles = sorted(set(TOKENS))
    for t in singles:
        for sep in sorted(set(SEPS)):
            add(t); add(t + sep); add(sep + t)
    while len(out) < count:
        k = r.choice([2, 2, 2, 3, 3, 4, 5, 6]) if r.random() < 0.98 else r.randrange(7, 20)
        s = r.choice(["", "", "", "", " ", "-", "'"])
        for i in range(k):
            s += r.choice(TOKENS) + (r.choice(SEPS) if i + 1 < k or r.random() < 0.12 else "")
        if r.random() < 0.2: s = recase(r, s)
        if s.lower().count("d'") + sum(s.lower().count(p + " ") for p in PREFIXES) > 6: continue
        add(s)
    return out

# Loading ----------------------------------------------------------------------
BADRULE = ['"a" "" "" "((k[english]|s[any]))"', '"a" "" "" "(k|s)|s"', '"a" "" "" "[any]s"', '"a" "" "" "(k[any])[any]"', '"a" "" ""', '"a" "" "" "b" "c"', '"" "" "" "b"', 'a', '"a" "" "" b', '"a""" "" "b"', ' "a" "" "" "b"', '/* never closed', '/* x */ y', '/ x', '#include nothere',
           '#include', '#include x y', '#include shared_a.txt', ' #include shared_a', '"a" "" "" "b[english"', '"a" "" "" "b[english]x"', '"a" "" "" "(b|c"', '"a" "" "" "(b|c[english)"',
           '"a" "[" "" "b"', '"a" "" "[e-a]" "b"', '"a" "" "([a]" "b"', '"a" "[a])" "" "b"', '"a" "" "*[a]" "b"', '"a" "\\"" "" "b"', '\r', 'é', '"a" "" "" "()"', '"a" "" "" "[]"', '"a" "" "" "(|)"', '"a" "" "" "("', '"a" "" "" ")"']
BADLANG = ["a english", "a english maybe", "a english true x", " a english true", "a  english true", "[ english true", "(a english true", "a) english true", "*a english true", "a english TRUE", "/* x", "true", "é", "a english false//", "[c-a] english true", "\r", "a english+ true"]
BADLIST = ["any english", "english2", "é", " any", "/* x", "any,", "-", "\r", "/", "any/* x */"]
def mutate(r, s):
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(s) + 1)
        k = r.random()
        if k < 0.4: s = s[:i] + s[i + 1:]
        elif k < 0.7: s = s[:i] + r.choice(list('"/=|\n \ta1é#$()]')) + s[i:]
        elif k < 0.9: s = s[:i] + r.choice(list('"/=|\n \ta1é#$()]')) + s[i + 1:]
        else: s = s[:i]
    return s
def understood(s):
    """The specification has regular expressions without these."""
    return not re.search(r"\(\?|[*+?][*+?]|--|\\\\|[{}&~]", s)
def load_cases(r, count):
    out = []
    while len(out) < count:
        files, langs = config(r, maxlangs=3, size=5, cyclic=0.05)
        lists = {f: files[f] for f in files if "_languages" in f}
        k = r.random()
        if k < 0.3: pass
        elif k < 0.42:
            for _ in range(r.choice([1, 1, 2])):
                files.pop(r.choice(sorted(files)), None)
        else:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                q = r.random()
                group = [f for f in files if ("_languages" in f if q < 0.15 else "_lang." in f if q < 0.35 else f.lower().startswith("shared") if q < 0.45 else "_rules_" in f if q < 0.7 else True)]
                f = r.choice(sorted(group))
                t = files[f]
                if r.random() < 0.6:
                    bad = BADLIST if "_languages" in f else BADLANG if "_lang." in f else BADRULE
                    ls = t.split("\n"); ls.insert(r.randrange(len(ls) + 1), r.choice(bad)); t = "\n".join(ls)
                    files[f] = t
                else:
                    for _ in range(9):
                        m = mutate(r, t)
                        if understood(m): files[f] = m; break
        # Without the language "any" encoding is a known finding of its own (C01).
        probe = all(files.get(f) == lists[f] for f in lists)
        if r.random() < 0.3: files["README"] = "not a rule file"
        if r.random() < 0.1: files["xyz_languages.txt"] = "any"
        probes = []
        for _ in range(6 if probe else 0):
            e = enc(r, 0)
            probes.append({"nt": e["nt"], "rt": e["rt"], "concat": e["concat"], "max": e["max"], "in": cps(small_word(r)), "langs": GUESS})
        out.append({"op": "bml", "names": sorted(files), "files": files_json(files), "probes": probes})
    return out

SOUP = list('"""" /*\n\n|()[]^$+?ab1\té\r#') + ['"a" ', '"" ', '"a" "" "" "b"\n', "any\n", "english\n", "/*", "*/", "//", "#include shared_a\n", "日", "a english true\n", '"a" "[" "" "b"\n', '"a" "" "(" "b"\n', "\\", "(?", "{", "}", "--", "&&", "(|a)", "[a[english]"]
def wild_load_cases(r, count):
    """Folders of files of any kind."""
    out = []
    while len(out) < count:
        files, langs = config(r, maxlangs=2, size=4, cyclic=0.05)
        lists = {f: files[f] for f in files if "_languages" in f}
        for _ in range(r.choice([1, 1, 2, 3])):
            q = r.random()
            f = r.choice(sorted(x for x in files if ("_languages" in x if q < 0.2 else "_lang." in x if q < 0.4 else "_rules_" in x if q < 0.7 else True)) or sorted(files))
            k = r.random()
            if k < 0.1: del files[f]
            elif k < 0.4: files[f] = "".join(r.choice(SOUP) for _ in range(r.randrange(0, 25)))
            else:
                for _ in range(r.choice([1, 2, 4, 8])): files[f] = mutate(r, files[f])
            if r.random() < 0.02: files[f] = "\ufeff" + files.get(f, "")
        probes = []
        for _ in range(4 if all(files.get(f) == lists[f] for f in lists) else 0):
            e = enc(r, 0)
            probes.append({"nt": e["nt"], "rt": e["rt"], "concat": e["concat"], "max": e["max"], "in": cps(small_word(r)), "langs": GUESS})
        out.append({"op": "bml", "names": sorted(files), "files": files_json(files), "probes": probes})
    return out
def finding_cases():
    """The findings of C01 that are not repaired."""
    e = {"alg": "bm", "how": "new", "cfg": 0, "nt": "gen", "rt": "approx", "concat": True, "max": 20}
    one = dict(case(e, "abc", {"k": "some", "s": [cps("klingon")]}), known="bm-language-without-rules")
    files = {}
    for nt in NTS:
        files[nt + "_languages.txt"] = "english\nfrench\n"
        files[nt + "_lang.txt"] = ""
        for rt in ("approx", "exact", "rules"):
            for l in ("english", "french", "common"): files["%s_%s_%s.txt" % (nt, rt, l)] = '"a" "" "" "a"\n'
    p = {"nt": "gen", "rt": "exact", "concat": True, "max": 20, "in": cps("ab"), "langs": GUESS}
    two = {"op": "bml", "names": sorted(files), "files": files_json(files), "probes": [p], "known": "bm-no-any"}
    return [one, two]

# Builders ---------------------------------------------------------------------
def settings_config(k):
    """Rules of configuration k that make every setting show."""
    files = {}
    for nt in NTS:
        files[nt + "_languages.txt"] = "any\n"
        files[nt + "_lang.txt"] = ""
        alts = "|".join("%s%d%s" % (nt[0], k, chr(97 + i)) for i in range(26))
        files[nt + "_rules_any.txt"] = '"a" "" "" "(%s)"\n"b" "" "" "b"\n' % alts
        for rt in ("approx", "exact"):
            files["%s_%s_common.txt" % (nt, rt)] = '"b" "" "" "%s"\n' % rt[0].upper()
            files["%s_%s_any.txt" % (nt, rt)] = ""
    return files
SETTING_PROBES = ["ab ba", "van gutsche", "ben roz"]
