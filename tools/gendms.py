"""Daitch-Mokotoff rule texts and words for them."""
import random
def cps(s): return [ord(c) for c in s]

SMALL = ["a", "e", "s", "c", "h", "m", "n", "t", "z", "k"]
def pattern(r):
    k = r.random()
    if k < 0.12: return r.choice(["é", "ß", "ț", "日", "m", "n", "nm", "mn", "x-y", "a=b", "//", "😀", "'", "X", "S", "sZ"])
    return "".join(r.choice(SMALL) for _ in range(r.choice([1, 1, 1, 2, 2, 2, 3, 3, 4])))
def code(r):
    k = r.random()
    if k < 0.15: return ""
    if k < 0.2: return r.choice(["é", "12é", "日本", "x", "X", "1A", "-", "00", "0"])
    return "".join(r.choice("0123456789") if r.random() < 0.3 else r.choice("345") for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])))
def reps(r):
    return "|".join(code(r) for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4])))
def blank(r): return r.choice([" ", " ", " ", "  ", "\t", " \t"])
def tail(r):
    return r.choice(["", "", "", "", " ", "\t ", " // note", "//x", " // \"a\" \"b\"", " // /* no", "  "])
def rule(r, p=None):
    b = lambda: blank(r)
    return '"%s"%s"%s"%s"%s"%s"%s"' % (p if p is not None else pattern(r), b(), reps(r), b(), reps(r), b(), reps(r)) + tail(r)
def fold(r):
    x = r.choice(["á", "é", "ß", "ç", "a", "S", "k", "ż", "日", " ", "=", '"', "/", "h"])
    y = r.choice(["a", "e", "s", "c", "k", "z", "é", "h", "m", "n", "=", "X"])
    return x + "=" + y + tail(r)
def comment(r):
    body = "".join(r.choice(["x", " ", "\n", "\n", "*", "/", '"', "a=b", '"a" "1" "1" "1"\n', "//", "é", "\r\n"]) for _ in range(r.randrange(0, 6)))
    body = body.replace("*/", "* /")
    if body.endswith("*"): body += " "
    return "/*" + body + "*/" + tail(r)
def construct(r):
    k = r.random()
    if k < 0.55: return rule(r)
    if k < 0.68: return fold(r)
    if k < 0.78: return r.choice(["", "", "  ", "\t", " \t "])
    if k < 0.88: return r.choice(["// comment", "//", "  // indented", "// a=b", "// é"])
    return comment(r)
def text(r, n):
    eol = r.choice(["\n", "\n", "\n", "\r\n"])
    ls = [construct(r) for _ in range(n)]
    s = ""
    for i, l in enumerate(ls):
        s += l
        if i + 1 < len(ls) or r.random() < 0.7:
            s += r.choice(["\n", "\r\n"]) if r.random() < 0.1 else eol
    return s
BAD = ["\"a\" \"1\" \"1\"", "\"a\" \"1\" \"1\" \"1\" \"1\"", "\"\" \"1\" \"1\" \"1\"", "a", "ab=c", "a=", "=b", "a = b", "/* never closed", "/* closed */ not",
       "/ x", "\"a\"\"1\" \"1\" \"1\"", "\"a\" \"1\" \"1\" \"1\" x", " \"a\" \"1\" \"1\" \"1\"", " a=b", "a=bc", "#include x", "\"a \"1\" \"1\" \"1\"", "\r", "é", "\"a\" '1' \"1\" \"1\"",
       "\"\\\"\" \"1\" \"1\" \"1\" //", "*/", "\"a\" \"1\" \"1\" 1"]
def mutate(r, s):
    for _ in range(r.choice([1, 1, 2, 3])):
        if not s: return s
        i = r.randrange(len(s))
        k = r.random()
        if k < 0.35: s = s[:i] + s[i + 1:]
        elif k < 0.65: s = s[:i] + r.choice(list('"/ *=|\n\t\ra1é#')) + s[i:]
        elif k < 0.85: s = s[:i] + r.choice(list('"/ *=|\n\t\ra1é#')) + s[i + 1:]
        else: s = s[:i]
    return s
def pats(s):
    import re
    return [m.group(1) for m in re.finditer(r'(?m)^"([^"\n]+)"', s)] + [m.group(1) for m in re.finditer(r'(?m)^(.)=.', s)]
def word(r, ps):
    k = r.randrange(1, 7) if r.random() < 0.97 else r.randrange(8, 90)
    w = "".join(r.choice(ps) if ps and r.random() < 0.7 else r.choice(["a", "e", "i", "m", "n", "s", "h", "mn", "nm", " ", "é", "\t", "x", "ß", "À", "-", "日", "İ"]) for _ in range(k))
    q = r.random()
    return w.upper() if q < 0.2 else w.title() if q < 0.3 else w
def rules_of(s):
    import re
    d = {}
    for m in re.finditer(r'(?m)^"([^"\n]+)"\s+"([^"\n]*)"\s+"([^"\n]*)"\s+"([^"\n]*)"', s):
        d[m.group(1).lower()] = max((m.group(i).split("|") for i in (2, 3, 4)), key=lambda v: len(set(v)))
    return d
def tame(s, w, cap=200):
    """The word, cut where it would have (about) more than cap codes: sets of codes that large take minutes to judge."""
    rs = rules_of(s) if isinstance(s, str) else s
    ps = sorted(rs, key=len, reverse=True)
    codes, i, low = {""}, 0, w.lower()
    while i < len(low):
        p = next((p for p in ps if low.startswith(p, i)), None)
        if p is None: i += 1; continue
        i += len(p)
        codes = {(c + x)[:6] for c in codes for x in rs[p]}
        if len(codes) > cap: return w[:max(1, i - len(p))]
    return w
def tables(r, count):
    """Valid rule texts for encoding."""
    out = []
    while len(out) < count:
        ps = [pattern(r) for _ in range(r.randrange(3, 25))]
        if r.random() < 0.15:
            # Many rules for the same first letter, and long patterns.
            c = r.choice(SMALL)
            ps += [c + "".join(r.choice(SMALL) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 9]))) for _ in range(r.randrange(25, 70))]
        ls = [rule(r, p.lower() if r.random() < 0.9 else p.upper()) for p in ps] + [fold(r) for _ in range(r.randrange(0, 6))]
        if r.random() < 0.5: ls += [rule(r, "m"), rule(r, "n"), rule(r, "mn")]
        r.shuffle(ls)
        out.append("\n".join(ls) + "\n")
    return out
def text_cases(r, count):
    out = []
    for _ in range(count):
        s = text(r, r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20]))
        k = r.random()
        if k < 0.35:
            ls = s.split("\n"); ls.insert(r.randrange(len(ls) + 1), r.choice(BAD)); s = "\n".join(ls)
        elif k < 0.6: s = mutate(r, s)
        ps = pats(s)
        ins = [word(r, ps) for _ in range(4)] + ["".join(ps[i:i + 3]) for i in range(0, min(len(ps), 9), 3)]
        rs = rules_of(s)
        ins = [tame(rs, w) for w in ins]
        out.append({"op": "dmsb", "text": cps(s), "fold": r.random() < 0.7, "ins": [cps(w) for w in ins]})
    return out
def enc_cases(r, texts, count):
    """Words for the custom tables (cfg 1..)."""
    out = []
    ps = [pats(t) for t in texts]
    rs = [rules_of(t) for t in texts]
    for _ in range(count):
        k = r.randrange(len(texts))
        out.append({"op": "dmsx", "enc": {"alg": "dms", "how": "new", "cfg": k + 1, "fold": r.random() < 0.6}, "in": cps(tame(rs[k], word(r, ps[k])))})
    return out
def wild_cases(r, count):
    """Rule texts of any kind."""
    out = []
    for _ in range(count):
        k = r.random()
        if k < 0.3: s = "".join(r.choice(list('"""" /*\n\n=|ab1\té\r#') + ['"a" ', '"1" ', '"a" "1" "1" "1"', "a=b", "/*", "*/", "//", "日", "İ"]) for _ in range(r.randrange(0, 30)))
        else:
            s = text(r, r.choice([1, 2, 3, 5, 8]))
            for _ in range(r.choice([0, 1, 1, 2, 4, 8])): s = mutate(r, s)
        ps = pats(s)
        ins = [word(r, ps) for _ in range(3)]
        rs = rules_of(s)
        ins = [tame(rs, w) for w in ins]
        out.append({"op": "dmsb", "text": cps(s), "fold": r.random() < 0.7, "ins": [cps(w) for w in ins]})
    return out
