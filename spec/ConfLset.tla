------------------------------ MODULE ConfLset ------------------------------
(* Conformance of the operations on sets of languages. *)
EXTENDS Conform, BeiderMorse

LsetExpected(r) ==
  LET a == LOfJson(r.a)  b == LOfJson(r.b)
  IN  [restrict |-> LRestrict(a, b), merge |-> LMerge(a, b), empty |-> LEmpty(a), single |-> LSingle(a), a |-> a,
       hasany |-> a.k = "some" /\ a.s # {},
       any |-> IF a.k = "some" /\ a.s # {} THEN SortTexts(a.s)[1] ELSE <<>>]
LsetAllowed(r) ==
  [r.out EXCEPT !.restrict = LShown(@), !.merge = LShown(@), !.a = LShown(@)] = LsetExpected(r)
=============================================================================
