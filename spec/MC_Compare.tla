----------------------------- MODULE MC_Compare -----------------------------
(***************************************************************************)
(* The match rating comparison, one position at a time, on all pairs of    *)
(* texts made of a few given pieces.                                       *)
(***************************************************************************)
EXTENDS Encoders, MCIn
CONSTANT Show
VARIABLES cmpA, cmpB, cmpSt
cmpVars == <<cmpA, cmpB, cmpSt>>

CmpTexts == {Flat(q) : q \in UNION {[1..n -> SetOfSeq(MCFrags)] : n \in 0..MCInput.max}}

CmpStart(s, t) ==
  LET a == MraEncode(s)  b == MraEncode(t)
      st(result, done) == [a |-> a, b |-> b, k |-> 1, done |-> done, result |-> result, sum |-> Len(a) + Len(b)]
  IN  IF MraTooShort(s) \/ MraTooShort(t) THEN st(FALSE, TRUE)
      ELSE IF s = t THEN st(TRUE, TRUE)
      ELSE IF AbsDiff(Len(a), Len(b)) >= 3 THEN st(FALSE, TRUE) ELSE st(FALSE, FALSE)
CmpStep(st) ==
  IF st.k > Len(st.a) \/ st.k > Len(st.b)
  THEN [st EXCEPT !.done = TRUE, !.result = AbsDiff(6, Max2(MraLeft(st.a), MraLeft(st.b))) >= MraMinimum(st.sum)]
  ELSE LET p == Strike([a |-> st.a, b |-> st.b], st.k, st.k)
           q == Strike(p, Len(p.a) - st.k + 1, Len(p.b) - st.k + 1)
       IN  [st EXCEPT !.a = q.a, !.b = q.b, !.k = @ + 1]
CmpInit == cmpA \in CmpTexts /\ cmpB \in CmpTexts /\ cmpSt = CmpStart(cmpA, cmpB)
CmpNext == ~cmpSt.done /\ cmpSt' = CmpStep(cmpSt) /\ UNCHANGED <<cmpA, cmpB>>
CmpSpec == CmpInit /\ [][CmpNext]_cmpVars /\ WF_cmpVars(CmpNext)

Terminates == <>(cmpSt.done)
Progress == [][cmpSt'.done \/ cmpSt'.k > cmpSt.k]_cmpVars
\* As many characters are struck out of one code as out of the other, and
\* what has been struck out stays so.
Struck(s) == {i \in 1..Len(s) : ~NotStruck(s[i])}
SameStruck == Cardinality(Struck(cmpSt.a)) = Cardinality(Struck(cmpSt.b))
Strikes == [][Struck(cmpSt.a) \subseteq Struck(cmpSt'.a) /\ Struck(cmpSt.b) \subseteq Struck(cmpSt'.b)]_cmpVars
AtEnd ==
  cmpSt.done =>
    /\ cmpSt.result = MraEquals(cmpA, cmpB)
    /\ cmpSt.result = MraEquals(cmpB, cmpA)                       \* symmetric
    /\ cmpA = cmpB => cmpSt.result = ~MraTooShort(cmpA)           \* reflexive on names
    /\ cmpSt.result => AbsDiff(Len(MraEncode(cmpA)), Len(MraEncode(cmpB))) < 3
    /\ MraEncode(cmpA) = MraEncode(cmpB) /\ MraEncode(cmpA) # <<>> /\ ~MraTooShort(cmpA) /\ ~MraTooShort(cmpB) => cmpSt.result
Emit == Show /\ cmpSt.done =>
  PrintT(<<"CASE", ToJson([op |-> "eq", enc |-> [alg |-> "mra", how |-> "new"], a |-> cmpA, b |-> cmpB, expect |-> cmpSt.result])>>)
=============================================================================
