------------------------------- MODULE Loops -------------------------------
(***************************************************************************)
(* Loops.  TLC takes time proportional to the depth of the nesting at every *)
(* step of a RECURSIVE operator, so loops are folds (which TLC computes in  *)
(* one go) or recursive functions.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

\* op(op(op(base, s1), s2), s3)...
Fold(op(_, _), base, s) == FoldLeft(op, base, s)
\* lo, lo + 1, ..., hi
Idx(lo, hi) == [k \in 1..(hi - lo + 1) |-> lo + k - 1]
\* For machines: a number of steps to take at a time.
Chunk == [k \in 1..24 |-> k] \o <<>>
=============================================================================
