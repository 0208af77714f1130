----------------------------- MODULE MC_BmText -----------------------------
(***************************************************************************)
(* Reading the three kinds of Beider-Morse files, one construct at a time, *)
(* on every text made of a few given pieces.                               *)
(*   MCInput.kind: "languages", "lang" or "rules"                          *)
(*   MCInput.files: the rest of the folder                                 *)
(***************************************************************************)
EXTENDS BeiderMorse, MCIn
CONSTANT Show
VARIABLES ftText, ftSt
ftVars == <<ftText, ftSt>>
FtTexts == {Flat(q) : q \in UNION {[1..n -> SetOfSeq(MCFrags)] : n \in 0..MCInput.max}}
Kind == MCInput.kind
FileName == CASE Kind = "languages" -> "gen_languages" [] Kind = "lang" -> "gen_lang" [] Kind = "rules" -> "gen_rules_any"
Files(s) == [f \in DOMAIN MCInput.files \cup {FileName \o ".txt"} |-> IF f = FileName \o ".txt" THEN s ELSE MCInput.files[f]]
Empty == CASE Kind = "languages" -> {} [] Kind = "lang" -> <<>> [] Kind = "rules" -> BmNoRules
StepOf(s, st) ==
  CASE Kind = "languages" -> BmLanguageStep(s, st)
    [] Kind = "lang" -> BmLangStep(s, "DIR/gen_lang.txt", st)
    [] Kind = "rules" -> BmRuleLine(Files(s), FileName, {}, s, st)
FtInit == ftText \in FtTexts /\ ftSt = Reading(Empty)
FtNext == ftSt.i <= Len(ftText) /\ ftSt.r.ok /\ ftSt' = StepOf(ftText, ftSt) /\ UNCHANGED ftText
FtSpec == FtInit /\ [][FtNext]_ftVars /\ WF_ftVars(FtNext)
FtDone == ftSt.i > Len(ftText) \/ ~ftSt.r.ok

Terminates == <>FtDone
Progress == [][~ftSt'.r.ok \/ ftSt'.i > ftSt.i]_ftVars
Lines ==
  LET n == CountChar(ftText, NL, 1, ftSt.i - 1) IN ftSt.line = n \/ (ftSt.i > Len(ftText) /\ ftSt.line = n + 1)
LineStart == ftSt.i = 1 \/ ftSt.i > Len(ftText) \/ ftText[ftSt.i - 1] = NL
NthLine(n) == Split(ftText, NL)[n]
\* Errors in this file are at the line reached, and show it.
ErrorLine ==
  ~ftSt.r.ok /\ ftSt.r.e.k = "parse" =>
    ftSt.r.e.line = ftSt.line + 1 /\ ftSt.r.e.content = NthLine(ftSt.r.e.line)
\* What has been read stays (rules of other first characters too).
Stays(a, b) ==
  CASE Kind = "languages" -> a \subseteq b
    [] Kind = "lang" -> IsPrefixOf(a, b)
    [] Kind = "rules" -> DOMAIN a \subseteq DOMAIN b
Keeps == [][ftSt'.r.ok => Stays(ftSt.r.v, ftSt'.r.v)]_ftVars
Probe(cfg, p) == BmEncode(cfg, [nt |-> p.nt, rt |-> p.rt, concat |-> p.concat, max |-> p.max], p.in)
Expect(s) ==
  LET v == BmLoad(Files(s), "DIR")
  IN  IF v.ok THEN [ok |-> TRUE, k |-> "", line |-> 0, content |-> <<>>, file |-> "",
                    codes |-> Tup([i \in 1..Len(MCInput.probes) |-> Probe(v.v, MCInput.probes[i])])]
      ELSE [ok |-> FALSE, k |-> v.e.k, line |-> v.e.line, content |-> v.e.content, file |-> v.e.file, codes |-> <<>>]
Emit == Show /\ FtDone =>
  LET x == Expect(ftText)
  IN  PrintT(<<"CASE", ToJson([op |-> "bml", text |-> ftText, expect |-> x])>>)
=============================================================================
