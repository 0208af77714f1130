----------------------------- MODULE MC_DmsText -----------------------------
(***************************************************************************)
(* Reading Daitch-Mokotoff rules, one construct at a time, on every text   *)
(* made of a few given pieces.                                             *)
(***************************************************************************)
EXTENDS DaitchMokotoff, MCIn
CONSTANT Show
VARIABLES prText, prSt
prVars == <<prText, prSt>>
PrTexts == {Flat(q) : q \in UNION {[1..n -> SetOfSeq(MCFrags)] : n \in 0..MCInput.max}}
PrInit == prText \in PrTexts /\ prSt = DmsPStart(prText)
PrNext == ~prSt.done /\ prSt' = DmsPStep(prText, prSt) /\ UNCHANGED prText
PrSpec == PrInit /\ [][PrNext]_prVars /\ WF_prVars(PrNext)

Terminates == <>(prSt.done)
Progress == [][prSt'.done \/ prSt'.i > prSt.i]_prVars
\* The line counted is the line one is on: the line breaks passed (a last line may have none).
Lines ==
  LET n == CountChar(prText, NL, 1, prSt.i - 1) IN prSt.line = n \/ (prSt.i > Len(prText) /\ prSt.line = n + 1)
\* One is always at the beginning of a line, or at the end.
LineStart == prSt.i = 1 \/ prSt.i > Len(prText) \/ prText[prSt.i - 1] = NL
\* The line of an error is that line of the text.
NthLine(n) == Split(prText, NL)[n]
ErrorLine == prSt.err => prSt.at.line = prSt.line + 1 /\ prSt.at.content = NthLine(prSt.at.line)
\* What has been read stays.
Keeps == [][IsPrefixOf(prSt.rules, prSt'.rules) /\ IsPrefixOf(prSt.folds, prSt'.folds)]_prVars
Rules == \A k \in 1..Len(prSt.rules) : prSt.rules[k].p # <<>> /\ Len(prSt.rules[k].start) >= 1
\* Rules of the same first character are in the order of their length.
Sorted ==
  prSt.done /\ ~prSt.err =>
    LET t == DmsTable(prSt.rules, prSt.folds)
    IN  \A c \in DOMAIN t.rules : \A k \in 2..Len(t.rules[c]) : ByteLen(t.rules[c][k - 1].p) >= ByteLen(t.rules[c][k].p)
Expect(s) ==
  LET b == DmsBuild(s)
  IN  IF ~b.ok THEN [ok |-> FALSE, k |-> "parse", line |-> b.line, content |-> b.content, codes |-> <<>>]
      ELSE [ok |-> TRUE, k |-> "", line |-> 0, content |-> <<>>,
            codes |-> Tup([k \in 1..Len(MCInput.ins) |-> DmsCodes(b.table, TRUE, MCInput.ins[k])])]
Emit == Show /\ prSt.done =>
  PrintT(<<"CASE", ToJson([op |-> "dmsb", text |-> prText, fold |-> TRUE, ins |-> MCInput.ins, expect |-> Expect(prText)])>>)
=============================================================================
