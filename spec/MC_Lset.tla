------------------------------ MODULE MC_Lset ------------------------------
(***************************************************************************)
(* The algebra of language sets on all language sets over a few languages, *)
(* and the machine that folds sets together one after the other.           *)
(***************************************************************************)
EXTENDS BeiderMorse, MCIn
CONSTANT Show
VARIABLES lsA, lsB, lsC
LsLangs == SetOfSeq(MCFrags)
LsAll == {LAny, LNone} \cup {LSome(x) : x \in SUBSET LsLangs}
LsInit == lsA \in LsAll /\ lsB \in LsAll /\ lsC = LAny
\* The third one is chosen afterwards.
LsNext == lsC = LAny /\ lsC' \in LsAll /\ UNCHANGED <<lsA, lsB>>
LsSpec == LsInit /\ [][LsNext]_<<lsA, lsB, lsC>>

\* What a language set means: the languages it lets through (of those there are).
Meaning(l) == IF l.k = "any" THEN LsLangs ELSE l.s
Laws ==
  /\ Meaning(LRestrict(lsA, lsB)) \subseteq Meaning(lsB) \/ lsA.k = "none"
  /\ Meaning(LRestrict(lsA, lsB)) = Meaning(lsA) \cap Meaning(lsB)
  /\ Meaning(LMerge(lsA, lsB)) = Meaning(lsA) \cup Meaning(lsB)
  /\ LRestrict(lsA, lsA) = lsA /\ LMerge(lsA, lsA) = lsA
  /\ LRestrict(lsA, LAny) = lsA /\ LRestrict(LAny, lsA) = lsA
  /\ LMerge(lsA, LNone) = lsA /\ LMerge(LNone, lsA) = lsA
  /\ LMerge(lsA, LAny) = LAny /\ LMerge(LAny, lsA) = LAny
  /\ LEmpty(LRestrict(lsA, LNone)) /\ LEmpty(LRestrict(LNone, lsA))
  /\ LEmpty(lsA) = (Meaning(lsA) = {} /\ lsA.k # "any")
  /\ LSingle(lsA) => ~LEmpty(lsA)
  /\ LMerge(lsA, lsB) = LMerge(lsB, lsA)
  /\ LMerge(LMerge(lsA, lsB), lsC) = LMerge(lsA, LMerge(lsB, lsC))
  \* Restricting commutes and associates up to how the empty set is written.
  /\ Meaning(LRestrict(lsA, lsB)) = Meaning(LRestrict(lsB, lsA))
  /\ Meaning(LRestrict(LRestrict(lsA, lsB), lsC)) = Meaning(LRestrict(lsA, LRestrict(lsB, lsC)))
  /\ Meaning(LRestrict(LMerge(lsA, lsB), lsC)) = Meaning(LMerge(LRestrict(lsA, lsC), LRestrict(lsB, lsC)))
LsJson(l) == [k |-> l.k, s |-> SortTexts(l.s)]
LsExpect ==
  [restrict |-> LsJson(LRestrict(lsA, lsB)), merge |-> LsJson(LMerge(lsA, lsB)), empty |-> LEmpty(lsA), single |-> LSingle(lsA), a |-> LsJson(lsA),
   hasany |-> lsA.k = "some" /\ lsA.s # {}, any |-> IF lsA.k = "some" /\ lsA.s # {} THEN SortTexts(lsA.s)[1] ELSE <<>>]
Emit == Show /\ lsC = LAny => PrintT(<<"CASE", ToJson([op |-> "lset", a |-> LsJson(lsA), b |-> LsJson(lsB), expect |-> LsExpect])>>)
=============================================================================
