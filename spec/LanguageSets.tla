---------------------------- MODULE LanguageSets ----------------------------
(***************************************************************************)
(* Sets of languages: any language, no language at all, or a given set     *)
(* (which may be empty too).  A language is a text.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LAny == [k |-> "any", s |-> {}]
LNone == [k |-> "none", s |-> {}]
LSome(s) == [k |-> "some", s |-> s]
\* From a set computed elsewhere: the empty one is "no language".
LFrom(s) == IF s = {} THEN LNone ELSE LSome(s)

\* As it is written in records: how it was made, and its members in a sequence.
LMembers(j) == {j.s[i] : i \in 1..Len(j.s)}
LOfJson(j) ==
  IF j.k = "any" THEN LAny ELSE IF j.k = "none" THEN LNone
  ELSE IF j.k \in {"some", "vec"} THEN LSome(LMembers(j)) ELSE LFrom(LMembers(j))
\* As it is shown in records.
LShown(j) == [k |-> j.k, s |-> LMembers(j)]

LEmpty(l) == l.k = "none" \/ (l.k = "some" /\ l.s = {})
LSingle(l) == l.k = "some" /\ Cardinality(l.s) = 1

LRestrict(a, b) ==
  IF b.k = "any" THEN a
  ELSE IF b.k = "none" THEN b
  ELSE IF a.k = "some" THEN LSome(a.s \cap b.s)
  ELSE IF a.k = "any" THEN b ELSE a
LMerge(a, b) ==
  IF b.k = "any" THEN b
  ELSE IF b.k = "none" THEN a
  ELSE IF a.k = "some" THEN LSome(a.s \cup b.s)
  ELSE IF a.k = "any" THEN a ELSE b
=============================================================================
