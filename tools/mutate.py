#!/usr/bin/env python3
"""Small changes to the code that the recorded cases of the checks (recorded.py) do not tell apart.

  mutate.py REC OUT FILE PROP[,PROP...] [STEP] [WORKERS]
Every change is made in a scratch copy of /repo; the harness is built on it, and what it
answers is compared with what the unchanged code answered.  OUT gets one line per change
that was not seen, with whether the tests of the repository see it.
"""
import json, os, re, shutil, subprocess, sys, threading, filecmp
S = "/tmp/mut"
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))

def code_spans(text):
    """Lines of code: no tests, no comments."""
    end = text.find("#[cfg(test)]")
    # The file may have code after a test helper, but not here.
    if end < 0: end = len(text)
    pos = 0
    for l in text.split("\n"):
        if pos >= end: break
        s = l.strip()
        if s and not s.startswith(("//", "#", "use ", "*", "/*", "pub use", "mod ", "extern")):
            cut = len(l)
            m = re.search(r"\s//( |$)", l)
            if m: cut = m.start()
            yield pos, l[:cut]
        pos += len(l) + 1
def mutants(text):
    out = []
    def add(a, b, new):
        if text[a:b] != new: out.append((a, b, new))
    SW = [("to_uppercase", "to_ascii_uppercase"), ("to_lowercase", "to_ascii_lowercase"), ("trim()", "trim_start()"), ("trim()", "trim_end()"), ("trim_start", "trim"),
          ("is_alphabetic", "is_alphanumeric"), ("is_alphabetic", "is_ascii_alphabetic"), ("is_whitespace", "is_ascii_whitespace"), ("starts_with", "ends_with"), ("ends_with", "starts_with"),
          ("chars().count()", "len()"), (".contains(", ".starts_with("), (".min(", ".max("), (".max(", ".min("), ("find(", "rfind("), ("is_some()", "is_none()"), ("is_none()", "is_some()"), (".rev()", ""),
          (".all(", ".any("), (".any(", ".all("), ("replace(", "replacen("), ("is_ascii_uppercase", "is_uppercase"), ("is_ascii_lowercase", "is_lowercase"), ("saturating_sub", "wrapping_sub"),
          (".intersection(", ".union("), (".union(", ".intersection("), (".difference(", ".intersection("), (".retain(|", ".retain(|"), ("take_while", "skip_while"), ("is_empty()", "len() == 1"), (".next()", ".last()"), (".next()", ".nth(1)"), (".last()", ".next()"),
          ("append_primary", "append_alternate"), ("append_alternate", "append_primary"), (".first()", ".last()"), ("insert(", "remove("), ("to_string()", "to_string().to_lowercase()")]
    for base, l in code_spans(text):
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\[^u]|\\u\{[0-9a-f]+\})\'', l)]
        inside = lambda i: any(a <= i < b for a, b in strs)
        for pat, news in [(r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
                          (r" \+ 1\b", [" + 2", ""]), (r" - 1\b", [" - 2", ""]), (r" \+ ([2-9])\b", [" + 1"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[ (])!(?=[a-z(])", [""]),
                          (r"\.\.=", [".."]), (r" \+= ", [" -= "]), (r" -= ", [" += "])]:
            for m in re.finditer(pat, l):
                if inside(m.start()): continue
                for n in news: add(base + m.start(), base + m.end(), n)
        for m in re.finditer(r"(?<![\w.'])(\d+)(?![\w.])", l):
            if inside(m.start()): continue
            v = int(m.group(1))
            add(base + m.start(), base + m.end(), str(v + 1))
            if v > 0: add(base + m.start(), base + m.end(), str(v - 1))
        for a, b in strs:
            t = l[a:b]
            if t[0] == "'": add(base + a, base + b, "'\\u{1}'" if t != "'\\u{1}'" else "'x'")
            else:
                add(base + a, base + b, '"\\u{1}"')
                if len(t) > 3 and "\\" not in t and "{" not in t:
                    add(base + a, base + b, t[:-2] + '"'); add(base + a, base + b, '"' + t[2:])
        s = l.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const", "static", "}", ".", ")", "type ")):
            a = base + l.index(s); add(a, a + len(s), ";" if s.startswith(("continue", "break")) else "")
        for x, y in SW:
            i = l.find(x)
            while i >= 0:
                if not inside(i):
                    rest = y
                    if x == "replace(":
                        # replacen takes a count
                        j = l.find(")", i)
                        if j > 0: add(base + i, base + j, "replacen(" + l[i + 8:j] + ", 1")
                    else: add(base + i, base + i + len(x), rest)
                i = l.find(x, i + 1)
    return sorted(set(out))

def main():
    rec, outp, file, props = os.path.abspath(sys.argv[1]), sys.argv[2], sys.argv[3], sys.argv[4].split(",")
    step = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    nw = int(sys.argv[6]) if len(sys.argv) > 6 else 4
    text = open("/repo/" + file, encoding="utf8").read()
    ms = mutants(text)[::step]
    print(file, len(ms), "changes", flush=True)
    calls = [(p, c) for p in props for c in json.load(open(os.path.join(rec, p, "calls.json")))]
    lock, todo, stat = threading.Lock(), list(enumerate(ms)), {"caught": 0, "build": 0, "same": 0, "tests": 0}
    def work(k):
        d = os.path.join(S, str(k))
        if not os.path.exists(d + "/repo"):
            os.makedirs(d, exist_ok=True)
            shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target", ".git"))
        subprocess.run(["rsync", "-a", "--delete", "/repo/src/", d + "/repo/src/"]) if shutil.which("rsync") else (shutil.rmtree(d + "/repo/src"), shutil.copytree("/repo/src", d + "/repo/src"))
        shutil.rmtree(d + "/harness", ignore_errors=True)
        shutil.copytree(rec + "/harness", d + "/harness", ignore=shutil.ignore_patterns("target"))
        t = open(d + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % d)
        t = t.replace("opt-level = 2", "opt-level = 1").replace("incremental = false", "incremental = true")
        open(d + "/harness/Cargo.toml", "w").write(t)
        env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
        while True:
            with lock:
                if not todo: return
                n, (a, b, new) = todo.pop(0)
            open(d + "/repo/" + file, "w", encoding="utf8").write(text[:a] + new + text[b:])
            r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=d + "/harness", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode:
                with lock: stat["build"] += 1
                continue
            seen = None
            for p, c in calls:
                o = d + "/out"
                args, i = list(c), 0
                real = args[args.index("--out") + 1]
                args[args.index("--out") + 1] = o
                args[args.index("--utab") + 1] = d + "/utab"
                if "--scratch" in args: args[args.index("--scratch") + 1] = d + "/s"
                if os.path.exists(o): os.remove(o)
                try: r = subprocess.run([d + "/target/release/harness"] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
                except subprocess.TimeoutExpired: seen = p; break
                shutil.rmtree(d + "/s", ignore_errors=True)
                if r.returncode or not filecmp.cmp(o, real, shallow=False): seen = p; break
            if seen:
                with lock: stat["caught"] += 1
                continue
            r = None
            try: r = subprocess.run("cargo test --offline --all-features --lib --quiet", shell=True, cwd=d + "/repo", env=dict(env, CARGO_TARGET_DIR=d + "/ttarget"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            except subprocess.TimeoutExpired: pass
            ok = r is not None and r.returncode == 0
            line = text.count("\n", 0, a) + 1
            with lock:
                stat["same" if ok else "tests"] += 1
                ls = text[:a].rfind("\n") + 1; le = text.find("\n", b)
                with open(outp, "a") as f:
                    f.write("%s %s:%d  %s  =>  %s\n" % ("SURVIVES" if ok else "only tests", file, line, text[ls:le].strip(), (text[ls:a] + "«" + new + "»" + text[b:le]).strip()))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(file, stat, flush=True)
main()
