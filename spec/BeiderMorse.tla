---------------------------- MODULE BeiderMorse ----------------------------
(***************************************************************************)
(* Beider-Morse phonetic encoding: reading a configuration (a folder of    *)
(* rule files), guessing the languages of a name, and the phonetic engine. *)
(* A configuration is                                                      *)
(*   langs[nt]  = [langs: set of languages, rules: seq of [re,langs,accept]]*)
(*   rules[<<nt, rt, lang>>] = function: first character -> seq of rules   *)
(* where nt in {"ash","gen","sep"}, rt in {"approx","exact","rules"} and a *)
(* language is a text.                                                     *)
(***************************************************************************)
EXTENDS Regex, LanguageSets

BmNameTypes == <<"ash", "gen", "sep">>
BmRuleTypes == <<"approx", "exact", "rules">>
bCommon == S("common")   bAny == S("any")

---------------------------------------------------------------------------
(* Guessing the languages of a name. *)
GuessOne(w, langs, r) ==
  IF ~ReSearch(r.re, w) THEN langs ELSE IF r.accept THEN langs \cap r.langs ELSE langs \ r.langs
BmGuess(lang, input) ==
  LET w == Lower(input)
      r == Fold(LAMBDA langs, rule : GuessOne(w, langs, rule), lang.langs, lang.rules)
  IN  IF r = {} THEN LAny ELSE LSome(r)

---------------------------------------------------------------------------
(* Phonemes: sequences of [t: text, l: languages] sorted by text, without  *)
(* two of the same text.                                                   *)
TextLess(a, b) ==
  LET f[i \in Nat] == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                      ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE f[i + 1]
  IN  f[1]
\* Position of the first phoneme of ps whose text is not smaller than t
\* (halving, because there can be hundreds).
PhPos(ps, t) ==
  LET f[lo \in Nat, hi \in Nat] ==
        IF lo = hi THEN lo
        ELSE LET mid == (lo + hi) \div 2 IN IF TextLess(ps[mid].t, t) THEN f[mid + 1, hi] ELSE f[lo, mid]
  IN  f[1, Len(ps) + 1]
PhHas(ps, t) == LET i == PhPos(ps, t) IN i <= Len(ps) /\ ps[i].t = t
PhInsert(ps, p) ==
  LET i == PhPos(ps, p.t)
  IN  IF i <= Len(ps) /\ ps[i].t = p.t THEN ps
      ELSE SubSeq(ps, 1, i - 1) \o <<p>> \o SubSeq(ps, i, Len(ps))

\* Join every phoneme of ps with every phoneme of the rule whose languages are
\* compatible, until there are max results.
PhJoin(a, p, x, max) ==
  IF a.full THEN a
  ELSE LET l == LRestrict(p.l, x.l)
       IN  IF LEmpty(l) THEN a
           ELSE LET ps == IF Len(a.ps) < max THEN PhInsert(a.ps, [t |-> p.t \o x.t, l |-> l]) ELSE a.ps
                IN  [ps |-> ps, full |-> Len(ps) >= max]
PhApply(ps, expr, max) ==
  Fold(LAMBDA acc, p : IF acc.full THEN acc ELSE Fold(LAMBDA a, x : PhJoin(a, p, x, max), acc, expr),
       [ps |-> <<>>, full |-> FALSE], ps).ps

\* The first rule of rs that applies to w at i (0: none).
BmApplies(r, w, i) ==
  /\ MatchAt(w, i, r.p)
  /\ r.right.k = "all" \/ CtxMatch(r.right, SubSeq(w, i + Len(r.p), Len(w)))
  /\ r.left.k = "all" \/ CtxMatch(r.left, SubSeq(w, 1, i - 1))
BmFind(rs, w, i) ==
  LET f[k \in Nat] == IF k > Len(rs) THEN 0 ELSE IF BmApplies(rs[k], w, i) THEN k ELSE f[k + 1] IN f[1]

\* One step over a text: position after, phonemes, rule applied?
BmRuleStep(rules, w, i, ps, max) ==
  LET rs == IF w[i] \in DOMAIN rules THEN rules[w[i]] ELSE <<>>
      k == BmFind(rs, w, i)
  IN  IF k = 0 THEN [i |-> i + 1, ps |-> ps, found |-> FALSE]
      ELSE [i |-> i + Len(rs[k].p), ps |-> PhApply(ps, rs[k].ph, max), found |-> TRUE]

\* A whole text, step by step (the position j is looked at if a step starts there).
BmMain(rules, w, start, max) ==
  Fold(LAMBDA st, j : IF st.i # j THEN st ELSE BmRuleStep(rules, w, j, st.ps, max),
       [i |-> 1, ps |-> start, found |-> FALSE], Idx(1, Len(w))).ps

\* Final rules rewrite the text of every phoneme; characters without rule stay.
\* (The order may change: "ab" and "a" become "abc" and "ac".)
PhAppend(ps, c) == Fold(LAMBDA acc, p : PhInsert(acc, [p EXCEPT !.t = Append(@, c)]), <<>>, ps)
BmKeep(st, c) == IF st.found THEN st ELSE [st EXCEPT !.ps = PhAppend(@, c)]
BmRewrite(rules, w, start, max) ==
  Fold(LAMBDA st, j : IF st.i # j THEN st ELSE BmKeep(BmRuleStep(rules, w, j, st.ps, max), w[j]),
       [i |-> 1, ps |-> start, found |-> FALSE], Idx(1, Len(w))).ps
\* Phonemes that end up with the same text merge their languages.
PhMergeOne(acc, p, l) ==
  LET i == PhPos(acc, p.t)
  IN  IF i <= Len(acc) /\ acc[i].t = p.t THEN [acc EXCEPT ![i].l = LMerge(@, l)]
      ELSE SubSeq(acc, 1, i - 1) \o <<p>> \o SubSeq(acc, i, Len(acc))
PhMerge(acc, ps, l) == Fold(LAMBDA a, p : PhMergeOne(a, p, l), acc, ps)
BmFinal(rules, ps, max) ==
  IF DOMAIN rules = {} THEN ps
  ELSE Fold(LAMBDA acc, p : PhMerge(acc, BmRewrite(rules, p.t, <<[t |-> <<>>, l |-> p.l]>>, max), p.l), <<>>, ps)

PhText(ps) == Join([k \in 1..Len(ps) |-> ps[k].t], <<cPipe>>)

---------------------------------------------------------------------------
(* Names. *)
BmPrefixesAsh == Lits({"bar", "ben", "da", "de", "van", "von"})
\* In the order in which they are tried.
BmPrefixesGen == <<S("da"), S("dal"), S("de"), S("de la"), S("del"), S("dela"), S("della"), S("des"), S("di"),
                   S("do"), S("dos"), S("du"), S("van"), S("von")>>
BmPrefixesSep == Lits({"al", "el", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do",
                       "dos", "du", "van", "von"})
bD == S("d'")

\* The words of s (white space separated).
WordsPush(ws, cur) == IF cur = <<>> THEN ws ELSE Append(ws, cur)
Words(s) ==
  LET r == Fold(LAMBDA a, c : IF IsSpace(c) THEN [ws |-> WordsPush(a.ws, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, c)],
                [ws |-> <<>>, cur |-> <<>>], s)
  IN  WordsPush(r.ws, r.cur)

\* The part of a word after its last apostrophe.
AfterQuote(w) == LET f[i \in Nat] == IF i = 0 THEN w ELSE IF w[i] = cQuote THEN SubSeq(w, i + 1, Len(w)) ELSE f[i - 1] IN f[Len(w)]
BmSepWord(nt, w) == IF nt = "sep" THEN AfterQuote(w) ELSE w
BmNotPrefix(nt, w) == IF nt = "ash" THEN w \notin BmPrefixesAsh ELSE IF nt = "sep" THEN w \notin BmPrefixesSep ELSE TRUE
BmKeepWords(nt, ws) ==
  Fold(LAMBDA a, w : LET v == BmSepWord(nt, w) IN IF BmNotPrefix(nt, v) THEN Append(a, v) ELSE a, <<>>, ws)

\* Length of the name prefix (with its space) that starts s: 0 if there is none.
BmPrefixLen(s) ==
  LET f[k \in Nat] == IF k > Len(BmPrefixesGen) THEN 0
                      ELSE IF StartsWith(s, BmPrefixesGen[k] \o <<cSpace>>) THEN Len(BmPrefixesGen[k]) + 1 ELSE f[k + 1]
  IN  f[1]

\* A spaceless name in its languages.
BmRulesFor(cfg, nt, rt, l) == cfg.rules[<<nt, rt, l>>]
BmPhonemes(cfg, o, w, ls) ==
  LET l == IF LSingle(ls) THEN CHOOSE x \in ls.s : TRUE ELSE bAny
      p1 == BmMain(BmRulesFor(cfg, o.nt, "rules", l), w, <<[t |-> <<>>, l |-> ls]>>, o.max)
      p2 == BmFinal(BmRulesFor(cfg, o.nt, o.rt, bCommon), p1, o.max)
  IN  BmFinal(BmRulesFor(cfg, o.nt, o.rt, l), p2, o.max)

\* o: [nt, rt, concat, max]; ls: the languages of the name.
RECURSIVE BmEncodeIn(_, _, _, _)
RECURSIVE BmEncodeAll(_, _, _, _)
BmEncode(cfg, o, s) == BmEncodeIn(cfg, o, s, BmGuess(cfg.langs[o.nt], s))
\* Two encodings: of the rest of the name, and of the prefix stuck to the rest.
BmBoth(cfg, o, rest, stuck) ==
  <<40>> \o BmEncode(cfg, o, rest) \o S(")-(") \o BmEncode(cfg, o, stuck) \o <<41>>
BmDash(c) == IF c = cDash THEN cSpace ELSE c
BmEncodeIn(cfg, o, s, ls) ==
  LET low == Lower(s)
      w == Tup([i \in 1..Len(low) |-> BmDash(low[i])])
      n == IF o.nt = "gen" THEN BmPrefixLen(w) ELSE 0
      ws == Words(w)
  IN  IF o.nt = "gen" /\ StartsWith(w, bD)
      THEN BmBoth(cfg, o, Drop(w, 2), <<100>> \o Drop(w, 2))
      ELSE IF n > 0 THEN BmBoth(cfg, o, Drop(w, n), SubSeq(w, 1, n - 1) \o Drop(w, n))
      ELSE IF ~o.concat /\ Len(ws) # 1 THEN BmEncodeAll(cfg, o, ws, 1)
      ELSE PhText(BmPhonemes(cfg, o, IF o.concat THEN Join(BmKeepWords(o.nt, ws), <<cSpace>>) ELSE ws[1], ls))
BmEncodeAll(cfg, o, ws, k) ==
  IF k > Len(ws) THEN <<>>
  ELSE (IF k = 1 THEN <<>> ELSE <<cDash>>) \o BmEncode(cfg, o, ws[k]) \o BmEncodeAll(cfg, o, ws, k + 1)

---------------------------------------------------------------------------
(* Reading a configuration.  files: function from file name (a TLA+ string, *)
(* with ".txt") to text.  Results: [ok |-> TRUE, v |-> value] or            *)
(* [ok |-> FALSE, e |-> error], an error being [k |-> kind, line, content,  *)
(* file]: kind "parse" (with line, content and file, "" if not known),      *)
(* or the name of another error.                                            *)
BmOk(v) == [ok |-> TRUE, v |-> v]
BmErr(k, line, content, file) == [ok |-> FALSE, e |-> [k |-> k, line |-> line, content |-> content, file |-> file]]
BmKind(k) == BmErr(k, 0, <<>>, "")
HasFile(files, f) == f \in DOMAIN files

\* Texts are read construct by construct: st.i is the position of the next one,
\* st.line the number of lines read, st.r the result so far (an error ends it).
Reading(v) == [i |-> 1, line |-> 0, r |-> BmOk(v)]
ReadFail(st, e) == [st EXCEPT !.r = e]
ReadNext(st, i, lines, v) == [i |-> i, line |-> st.line + lines, r |-> BmOk(v)]

\* Lists of languages.
BmLanguageStep(s, st) ==
  LET i == st.i  e == EndOfLine(s, i)  m == MultiLine(s, i)  l == LanguageLine(s, i)
  IN  IF e > 0 THEN ReadNext(st, e, 1, st.r.v)
      ELSE IF m.ok THEN ReadNext(st, m.next, m.lines, st.r.v)
      ELSE IF l.ok THEN ReadNext(st, l.next, 1, st.r.v \cup {l.name})
      ELSE ReadFail(st, BmErr("parse", st.line + 1, LineFrom(s, i), ""))
BmLanguages(s) ==
  Fold(LAMBDA st, j : IF st.i # j \/ ~st.r.ok THEN st ELSE BmLanguageStep(s, st), Reading({}), Idx(1, Len(s))).r

\* Language detection rules; path: the path of the file.
SetOf(q) == {q[i] : i \in 1..Len(q)}
BmLangStep(s, path, st) ==
  LET i == st.i  e == EndOfLine(s, i)  m == MultiLine(s, i)  l == LangLine(s, i)  re == ReCompile(l.pattern)
  IN  IF e > 0 THEN ReadNext(st, e, 1, st.r.v)
      ELSE IF m.ok THEN ReadNext(st, m.next, m.lines, st.r.v)
      ELSE IF ~l.ok THEN ReadFail(st, BmErr("parse", st.line + 1, LineFrom(s, i), ""))
      ELSE IF ~re.ok THEN ReadFail(st, BmErr("parse", st.line + 1, LineFrom(s, i), path))
      ELSE ReadNext(st, l.next, 1, Append(st.r.v, [re |-> re.r, langs |-> SetOf(Split(l.langs, 43)), accept |-> l.accept]))
BmLangRules(s, path) ==
  Fold(LAMBDA st, j : IF st.i # j \/ ~st.r.ok THEN st ELSE BmLangStep(s, path, st), Reading(<<>>), Idx(1, Len(s))).r

\* Phoneme expressions: text, text[lang+lang], or (alternatives|...).
BmPhoneme(s) ==
  LET j == FindChar(s, 91, 1)
  IN  IF j = 0 THEN BmOk([t |-> s, l |-> LAny])
      ELSE IF s[Len(s)] # 93 THEN BmKind("WrongPhoneme")
      ELSE BmOk([t |-> SubSeq(s, 1, j - 1), l |-> LSome(SetOf(Split(SubSeq(s, j + 1, Len(s) - 1), 43)))])
BmPhonemesOf(parts) ==
  Fold(LAMBDA a, part : IF ~a.ok THEN a ELSE LET p == BmPhoneme(part) IN IF p.ok THEN BmOk(Append(a.v, p.v)) ELSE p, BmOk(<<>>), parts)
BmExpr(s) ==
  IF At(s, 1) # 40 THEN BmPhonemesOf(<<s>>)
  ELSE IF s[Len(s)] # 41 THEN BmKind("WrongPhoneme")
  ELSE LET in == SubSeq(s, 2, Len(s) - 1)
           r == BmPhonemesOf(Split(in, cPipe))
       IN  IF r.ok /\ (At(in, 1) = cPipe \/ (Len(in) > 0 /\ in[Len(in)] = cPipe))
           \* An empty alternative at an end counts once more.
           THEN BmOk(Append(r.v, [t |-> <<>>, l |-> LAny])) ELSE r

\* One rule.
BmRule(q) ==
  LET left == CtxOf(q.b \o <<36>>)  right == CtxOf(<<94>> \o q.c)  ph == BmExpr(q.d)
  IN  IF left.k = "bad" THEN BmKind("BadContextRegex")
      ELSE IF right.k = "bad" THEN BmKind("BadContextRegex")
      ELSE IF ~ph.ok THEN ph
      ELSE IF q.a = <<>> THEN BmKind("BadRule")
      ELSE BmOk([p |-> q.a, left |-> left, right |-> right, ph |-> ph.v])

BmAddRule(t, r) ==
  Fun([c \in DOMAIN t \cup {r.p[1]} |->
     IF c # r.p[1] THEN t[c] ELSE IF c \in DOMAIN t THEN Append(t[c], r) ELSE <<r>>])
\* The rules of an included file replace those of the same first characters.
BmOverride(t, u) == Fun([c \in DOMAIN t \cup DOMAIN u |-> IF c \in DOMAIN u THEN u[c] ELSE t[c]])
BmNoRules == [c \in {} |-> <<>>]

\* Texts of file names.
ToStr(s) == Fold(LAMBDA a, c : a \o (IF c < 128 THEN CodeToStr[c] ELSE UTab[c].s), "", s)

\* name: without ".txt"; in: the files being read that include it.
RECURSIVE BmRuleFile(_, _, _)
BmRuleLine(files, name, in, s, st) ==
  LET i == st.i
      q == Quadruplet(s, i)  e == EndOfLine(s, i)  inc == Include(s, i)  m == MultiLine(s, i)
      r == BmRule(q)
      sub == BmRuleFile(files, ToStr(inc.name), in \cup {name})
  IN  IF q.ok THEN (IF ~r.ok THEN ReadFail(st, r) ELSE ReadNext(st, q.next, 1, BmAddRule(st.r.v, r.v)))
      ELSE IF e > 0 THEN ReadNext(st, e, 1, st.r.v)
      ELSE IF inc.ok
      THEN IF sub.ok THEN ReadNext(st, inc.next, 1, BmOverride(st.r.v, sub.v))
           ELSE IF sub.e.k = "parse" THEN ReadFail(st, sub)
           ELSE ReadFail(st, BmErr("parse", st.line + 1, LineFrom(s, i), name))
      ELSE IF m.ok THEN ReadNext(st, m.next, m.lines, st.r.v)
      ELSE ReadFail(st, BmErr("parse", st.line + 1, LineFrom(s, i), name))
BmRuleFile(files, name, in) ==
  IF name \in in THEN BmKind("BadRule")
  ELSE IF ~HasFile(files, name \o ".txt") THEN BmKind("WrongFilename")
  ELSE LET s == files[name \o ".txt"]
       IN  Fold(LAMBDA st, j : IF st.i # j \/ ~st.r.ok THEN st ELSE BmRuleLine(files, name, in, s, st),
                Reading(BmNoRules), Idx(1, Len(s))).r

\* All rule files of a configuration, in the order in which they are read:
\* languages in alphabetical order, then the common rules.
RECURSIVE SortTexts(_)
SortTexts(set) ==
  IF set = {} THEN <<>>
  ELSE LET m == CHOOSE x \in set : \A y \in set : x = y \/ TextLess(x, y) IN <<m>> \o SortTexts(set \ {m})
BmKeysOf(nt, rt, langs) ==
  LET ls == SortTexts(langs) \o (IF rt = "rules" THEN <<>> ELSE <<bCommon>>)
  IN  Tup([i \in 1..Len(ls) |-> <<nt, rt, ls[i]>>])
BmReadKey(files, acc, key) ==
  IF ~acc.ok THEN acc
  ELSE LET r == BmRuleFile(files, key[1] \o "_" \o key[2] \o "_" \o ToStr(key[3]), {})
       IN  IF ~r.ok THEN r ELSE BmOk(Append(acc.v, r.v))
\* The tables of the keys.
BmReadAll(files, keys) ==
  LET r == Fold(LAMBDA acc, key : BmReadKey(files, acc, key), BmOk(<<>>), keys)
  IN  IF ~r.ok THEN r ELSE BmOk(Fun([key \in SetOf(keys) |-> r.v[CHOOSE i \in 1..Len(keys) : keys[i] = key]]))
\* First failure of three results in a row.
BmFirst3(r) == IF ~r[1].ok THEN r[1] ELSE IF ~r[2].ok THEN r[2] ELSE r[3]

\* Lists of languages that cannot be read: any of these errors may be the one reported.
BmBrokenLists(files) ==
  {e \in {BmLanguages(files[nt \o "_languages.txt"]) :
            nt \in {x \in SetOf(BmNameTypes) : HasFile(files, x \o "_languages.txt")}} : ~e.ok}
BmLoad(files, dir) ==
  LET has(nt) == HasFile(files, nt \o "_languages.txt")
      lists == Fun([nt \in SetOf(BmNameTypes) |->
                  IF has(nt) THEN BmLanguages(files[nt \o "_languages.txt"]) ELSE BmKind("UnknownNameType")])
      broken == {nt \in SetOf(BmNameTypes) : ~lists[nt].ok /\ lists[nt].e.k = "parse"}
      lrules == Fun([nt \in SetOf(BmNameTypes) |->
                  IF ~lists[nt].ok THEN lists[nt]
                  ELSE IF ~HasFile(files, nt \o "_lang.txt") THEN BmKind("ParseConfiguration")
                  ELSE BmLangRules(files[nt \o "_lang.txt"], dir \o "/" \o nt \o "_lang.txt")])
      firstLang == BmFirst3([i \in 1..3 |-> lrules[BmNameTypes[i]]])
      keysOf(nt) == BmKeysOf(nt, "approx", lists[nt].v) \o BmKeysOf(nt, "exact", lists[nt].v) \o BmKeysOf(nt, "rules", lists[nt].v)
      keys == keysOf("ash") \o keysOf("gen") \o keysOf("sep")
      rules == BmReadAll(files, keys)
  IN  \* A broken list of languages is found first; if several are broken, any of them.
      IF broken # {} THEN lists[CHOOSE nt \in broken : TRUE]
      ELSE IF ~firstLang.ok THEN firstLang
      ELSE IF ~rules.ok THEN rules
      ELSE BmOk([langs |-> Fun([nt \in SetOf(BmNameTypes) |-> [langs |-> lists[nt].v, rules |-> lrules[nt].v]]),
                 rules |-> rules.v])
=============================================================================
