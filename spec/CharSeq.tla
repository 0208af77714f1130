------------------------------ MODULE CharSeq ------------------------------
(***************************************************************************)
(* A text seen as a sequence of characters: slices by position (0-based,   *)
(* the end excluded) keep the positions that exist.                        *)
(***************************************************************************)
EXTENDS Strs

Slice(s, lo, hi) == IF lo >= hi \/ lo >= Len(s) THEN <<>> ELSE SubSeq(s, lo + 1, Min2(hi, Len(s)))

\* The end of a range that includes its last position.
After(s, hi) == IF hi >= Len(s) THEN Len(s) ELSE hi + 1

SliceBy(s, kind, lo, hi) ==
  CASE kind = "range" -> Slice(s, lo, hi)
    [] kind = "incl" -> Slice(s, lo, After(s, hi))
    [] kind = "from" -> Slice(s, lo, Len(s))
    [] kind = "to" -> Slice(s, 0, hi)
    [] kind = "toincl" -> Slice(s, 0, After(s, hi))
    [] kind = "full" -> s
=============================================================================
