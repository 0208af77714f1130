------------------------------- MODULE MC_Dms -------------------------------
(***************************************************************************)
(* Daitch-Mokotoff encoding, one step at a time, with the tables of the    *)
(* run, on every text made of a few given pieces.                          *)
(***************************************************************************)
EXTENDS DmsTables, MCIn
CONSTANT Show
VARIABLES dmTab, dmFold, dmAll, dmText, dmSt
dmVars == <<dmTab, dmFold, dmAll, dmText, dmSt>>
T == DmsTables[dmTab]

\* Every table has pieces of its own.
DmTexts(k) == {Flat(q) : q \in UNION {[1..n -> SetOfSeq(MCFrags[k])] : n \in 0..MCInput.max}}
DmInit ==
  /\ dmTab \in 1..Len(DmsTables) /\ dmFold \in BOOLEAN /\ dmAll \in BOOLEAN
  /\ dmText \in DmTexts(dmTab)
  /\ dmSt = DmsStart(DmsTables[dmTab], dmFold, dmText)
DmNext == ~dmSt.done /\ dmSt' = DmsStep(T, dmAll, dmSt) /\ UNCHANGED <<dmTab, dmFold, dmAll, dmText>>
DmSpec == DmInit /\ [][DmNext]_dmVars /\ WF_dmVars(DmNext)

Terminates == <>(dmSt.done)
Progress == [][dmSt'.done \/ dmSt'.i > dmSt.i]_dmVars
\* Every branch continues a branch (until the padding).
Continues == [][\A k \in 1..Len(dmSt'.bs) : \E j \in 1..Len(dmSt.bs) : IsPrefixOf(dmSt.bs[j].code, dmSt'.bs[k].code)]_dmVars
Branches ==
  /\ Len(dmSt.bs) >= 1
  /\ \A k \in 1..Len(dmSt.bs) : Len(dmSt.bs[k].code) <= DmsLength
  \* No branch twice, once a rule has applied (what is padded may coincide).
  /\ ~dmSt.done => \A j, k \in 1..Len(dmSt.bs) : dmSt.bs[j] = dmSt.bs[k] => j = k
  /\ ~dmAll => Len(dmSt.bs) = 1
Codes == Tup([k \in 1..Len(dmSt.bs) |-> dmSt.bs[k].code])
AtEnd ==
  dmSt.done =>
    /\ \A k \in 1..Len(dmSt.bs) : Len(dmSt.bs[k].code) = DmsLength
    /\ dmAll => Codes = DmsCodes(T, dmFold, dmText) /\ Codes[1] = DmsFirst(T, dmFold, dmText)
Emit == Show /\ dmAll /\ dmSt.done =>
  LET first == DmsFirst(T, dmFold, dmText)
  IN  PrintT(<<"CASE", ToJson([op |-> "dmsx", enc |-> [alg |-> "dms", how |-> "new", cfg |-> dmTab - 1, fold |-> dmFold], in |-> dmText,
               expect |-> [all |-> Codes, first |-> <<first>>, s |-> Join(Codes, <<cPipe>>), e |-> first]])>>)
=============================================================================
