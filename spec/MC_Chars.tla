------------------------------ MODULE MC_Chars ------------------------------
(* All slices of all short texts over a few characters of every width. *)
EXTENDS CharSeq, MCIn, FiniteSets
CONSTANT Show
VARIABLES csText, csKind, csLo, csHi, csDone
csVars == <<csText, csKind, csLo, csHi, csDone>>
CsTexts == UNION {[1..n -> SetOfSeq(MCFrags)] : n \in 0..MCInput.max}
\* (What a kind does not use is 0.)
CsFits(n) ==
  CASE csKind \in {"range", "incl"} -> TRUE
    [] csKind = "from" -> csHi = 0
    [] csKind \in {"to", "toincl"} -> csLo = 0
    [] csKind = "full" -> csLo = 0 /\ csHi = 0
\* (2000000000 stands for the largest number there is.)
CsPositions == 0..MCInput.max + 2 \cup {2000000000}
CsInit ==
  /\ csText \in CsTexts /\ csDone = FALSE
  /\ csKind \in {"range", "incl", "from", "to", "toincl", "full"}
  /\ csLo \in CsPositions /\ csHi \in CsPositions
  /\ CsFits(Len(csText))
CsNext == ~csDone /\ csDone' = TRUE /\ UNCHANGED <<csText, csKind, csLo, csHi>>
CsSpec == CsInit /\ [][CsNext]_csVars
Out == SliceBy(csText, csKind, csLo, csHi)
\* A slice and what is before and after it make the text.
Pieces ==
  /\ csKind = "from" => SliceBy(csText, "to", 0, csLo) \o Out = csText
  /\ csKind = "range" /\ csLo <= csHi => SliceBy(csText, "to", 0, csLo) \o Out \o SliceBy(csText, "from", csHi, 0) = csText
  /\ csKind = "incl" => Out = SliceBy(csText, "range", csLo, csHi + 1)
  /\ csKind = "toincl" => Out = SliceBy(csText, "to", 0, csHi + 1)
  /\ csKind = "full" => Out = csText
Emit == Show /\ csDone => PrintT(<<"CASE", ToJson([op |-> "chs", s |-> csText, kind |-> csKind, lo |-> csLo, hi |-> csHi,
   expect |-> [out |-> Out, len |-> Len(csText), empty |-> csText = <<>>, same |-> TRUE]])>>)
=============================================================================
