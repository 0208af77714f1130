"""Test fragments taken from the literals of the specification itself."""
import re, os, json
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")
MODS = {"sdx": ["Soundex"], "rsx": ["RefinedSoundex"], "col": ["Cologne"], "cav1": ["Caverphone"], "cav2": ["Caverphone"],
        "met": ["Metaphone"], "dmp": ["DoubleMetaphone"], "nys": ["Nysiis"], "phx": ["Phonex"], "mra": ["MatchRating"],
        "bm": ["BeiderMorse"]}
EXTRA = {"sdx": ["HW", "WH", "TCH", "CK", "PF", "SC", "MN", "LL"], "rsx": ["BB", "CK", "DT", "MN", "LR"],
         "col": ["PH", "CH", "SCH", "CX", "KX", "QX", "DS", "TZ", "DC", "SC", "ZC", "ÄU", "ÖE", "ÜB", "CA", "CE", "BP", "FV", "GK", "H"],
         "phx": ["KN", "PH", "WR", "H", "SS", "MD", "NG", "DC", "TC", "LA", "LB", "RA", "RB", "NN", "MM", "ND", "MG"],
         "nys": ["MAC", "KN", "K", "PH", "PF", "SCH", "EE", "IE", "DT", "RT", "RD", "NT", "ND", "EV", "Q", "Z", "M", "H", "W", "AHA", "AW", "S", "AY", "AS"],
         "met": ["KN", "GN", "PN", "AE", "WR", "WH", "X", "MB", "SCE", "CIA", "SCH", "CH", "DGE", "DGY", "GH", "GHT", "GN", "GNED", "GGE", "PH", "CK", "SH", "SIO", "SIA", "TIA", "TIO", "TCH", "TH", "CC", "EE"],
         "mra": ["BB", "CC", "LL", "MM", "TT", "SS", "-", "&", "'", ".", ",", "Á", "É", "Ö", "Û", "Ñ", "Ç", "AEIOU"],
         "dmp": ["CHARAC", "CHARIS", "MAIER", "SCHUY", "CHORE", "CHAE", "GH", "GHT", "AUGH", "BRO", "W", "ILLO", "GNI"]}
def literals(mod):
    t = open(os.path.join(SPEC, mod + ".tla")).read()
    t = re.sub(r"\(\*.*?\*\)", "", t, flags=re.S)
    t = re.sub(r"\\\*.*", "", t)
    out = set()
    for m in re.finditer(r'(?:S|Lits|Chars|R)\(([^()]*)\)', t):
        out |= set(re.findall(r'"([^"]+)"', m.group(1)))
    return sorted(x for x in out if re.fullmatch(r"[A-Za-z' ]+", x) and len(x) <= 10)
def frags():
    f = {a: sorted(set(sum((literals(m) for m in ms), [])) | set(EXTRA.get(a, []))) for a, ms in MODS.items()}
    f["dms"] = []
    for l in open(os.path.join(SPEC, "data", "dmrules.txt"), encoding="utf8"):
        m = re.match(r'"([^"]+)"', l)
        if m: f["dms"].append(m.group(1))
    for l in open(os.path.join(SPEC, "data", "dmrules.txt"), encoding="utf8"):
        m = re.match(r'(\S)=(\S)', l)
        if m: f["dms"].append(m.group(1))
    return f
if __name__ == "__main__":
    import sys
    json.dump(frags(), open(sys.argv[1], "w"))
