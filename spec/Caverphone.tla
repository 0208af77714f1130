----------------------------- MODULE Caverphone -----------------------------
(***************************************************************************)
(* Caverphone 1.0 and 2.0: an ordered list of rewriting rules.  The machine *)
(* applies one rule per step.  A rule is <<kind, what, by>>:               *)
(*   "start"  rewrite at the beginning of the text                          *)
(*   "end"    rewrite at the end of the text                                *)
(*   "all"    rewrite every occurrence, left to right                       *)
(*   "first-vowel" / "vowels" / "compact"  see below                        *)
(***************************************************************************)
EXTENDS Uni

R(kind, a, b) == [kind |-> kind, a |-> S(a), b |-> S(b)]
CavVowels == Chars("aeiou")
CavCompact == Chars("stpkfmn")

CavHead == <<
  R("start", "cough", "cou2f"), R("start", "rough", "rou2f"),
  R("start", "tough", "tou2f"), R("start", "enough", "enou2f")>>
CavMiddle == <<
  R("start", "gn", "2n"), R("end", "mb", "m2"),
  R("all", "cq", "2q"), R("all", "ci", "si"), R("all", "ce", "se"), R("all", "cy", "sy"),
  R("all", "tch", "2ch"), R("all", "c", "k"), R("all", "q", "k"), R("all", "x", "k"),
  R("all", "v", "f"), R("all", "dg", "2g"), R("all", "tio", "sio"), R("all", "tia", "sia"),
  R("all", "d", "t"), R("all", "ph", "fh"), R("all", "b", "p"), R("all", "sh", "s2"),
  R("all", "z", "s"), R("first-vowel", "", "A"), R("vowels", "", "3")>>
CavGh == << R("all", "3gh3", "3kh3"), R("all", "gh", "22"), R("all", "g", "k"), R("compact", "", "") >>

Cav1Rules == CavHead \o CavMiddle \o CavGh \o <<
  R("all", "w3", "W3"), R("all", "wy", "Wy"), R("all", "wh3", "Wh3"), R("all", "why", "Why"),
  R("all", "w", "2"), R("start", "h", "A"), R("all", "h", "2"),
  R("all", "r3", "R3"), R("all", "ry", "Ry"), R("all", "r", "2"),
  R("all", "l3", "L3"), R("all", "ly", "Ly"), R("all", "l", "2"),
  R("all", "j", "y"), R("all", "y3", "Y3"), R("all", "y", "2"),
  R("all", "2", ""), R("all", "3", "")>>

Cav2Rules == << R("end", "e", "") >> \o CavHead \o << R("start", "trough", "trou2f") >> \o CavMiddle \o <<
  R("all", "j", "y"), R("start", "y3", "Y3"), R("start", "y", "A"), R("all", "y", "3")>> \o CavGh \o <<
  R("all", "w3", "W3"), R("all", "wh3", "Wh3"), R("end", "w", "3"), R("all", "w", "2"),
  R("start", "h", "A"), R("all", "h", "2"),
  R("all", "r3", "R3"), R("end", "r", "3"), R("all", "r", "2"),
  R("all", "l3", "L3"), R("end", "l", "3"), R("all", "l", "2"),
  R("all", "2", ""), R("end", "3", "A"), R("all", "3", "")>>

\* Runs of the same letter of CavCompact become one capital letter.
CavCompactOne(s, i) ==
  IF s[i] \in CavCompact THEN (IF i > 1 /\ s[i-1] = s[i] THEN <<>> ELSE <<s[i] - 32>>) ELSE <<s[i]>>
CavCompactFrom(s, i) == Flat([k \in 1..(Len(s) - i + 1) |-> CavCompactOne(s, i + k - 1)])

CavApply(r, s) ==
  IF r.kind = "start" THEN ReplaceStart(s, r.a, r.b)
  ELSE IF r.kind = "end" THEN ReplaceEnd(s, r.a, r.b)
  ELSE IF r.kind = "all" THEN ReplaceAll(s, r.a, r.b)
  ELSE IF r.kind = "first-vowel" THEN (IF Len(s) > 0 /\ s[1] \in CavVowels THEN <<cA>> \o Tail(s) ELSE s)
  ELSE IF r.kind = "vowels" THEN Tup([i \in 1..Len(s) |-> IF s[i] \in CavVowels THEN c3 ELSE s[i]])
  ELSE CavCompactFrom(s, 1)

CavRules(v) == IF v = 1 THEN Cav1Rules ELSE Cav2Rules
CavLen(v) == IF v = 1 THEN 6 ELSE 10

CavStart(v, s) == [w |-> OnlyAsciiLower(Lower(s)), i |-> 1, code |-> <<>>, done |-> FALSE, tag |-> "start"]
CavStep(v, st) ==
  IF st.i > Len(CavRules(v))
  THEN [st EXCEPT !.code = Take(PadTo(st.w, CavLen(v), c1), CavLen(v)), !.done = TRUE, !.tag = "pad"]
  ELSE LET w == CavApply(CavRules(v)[st.i], st.w)
       IN  [st EXCEPT !.i = @ + 1, !.w = w, !.tag = IF w = st.w THEN "same" ELSE "rewrite"]

RECURSIVE CavUntil(_, _)
CavUntil(v, st) ==
  IF st.done THEN st ELSE CavUntil(v, Fold(LAMBDA q, k : IF q.done THEN q ELSE CavStep(v, q), st, Chunk))
CavRun(v, start) == LET st == CavUntil(v, start) IN st.code
CavEncode(v, s) == CavRun(v, CavStart(v, s))
=============================================================================
