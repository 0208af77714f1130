----------------------------- MODULE Relations -----------------------------
(***************************************************************************)
(* Properties that relate several observations of the code to each other,  *)
(* whatever the codes themselves are.                                      *)
(***************************************************************************)
EXTENDS Strs

\* The number of equal positions, 0 if one of the codes is empty.
CodeDifference(a, b) ==
  IF a = <<>> \/ b = <<>> THEN 0 ELSE Cardinality({i \in 1..Min2(Len(a), Len(b)) : a[i] = b[i]})

\* A maximum length only cuts the code.  An observation is a sequence of
\* codes (of double metaphone: primary, alternate, and both once more).
CutAll(full, n) == Tup([k \in 1..Len(full) |-> Take(full[k], n)])
LimitDefault(alg) == IF alg = "nys" THEN 6 ELSE 4
\* A text of one character is its own Metaphone code (and no text has none).
LimitExempt(alg, s) == alg = "met" /\ Len(s) <= 1
LimitAllowed(alg, s, ns, o) ==
  \/ LimitExempt(alg, s)
  \/ /\ \A k \in 1..Len(ns) : o.codes[k] = CutAll(o.full, ns[k])
     /\ o.dflt = CutAll(o.full, LimitDefault(alg))
     /\ alg = "phx" => \A k \in 1..Len(ns) : Len(o.codes[k][1]) = ns[k]

\* Two texts are equal exactly when their codes are.
RowAllowed(w) == w.eq = (w.ca = w.cb) /\ w.rev = w.eq /\ w.self
EqAllowed(o) ==
  /\ \A k \in 1..Len(o.rows) : RowAllowed(o.rows[k])
  /\ o.difs # <<>> =>
       LET a == o.rows[1].ca  b == o.rows[1].cb
       IN  o.difs = <<CodeDifference(a, b), CodeDifference(a, b), CodeDifference(a, a)>>

\* Every case of a text gives the same.
CaseAllowed(os) == \A k \in 2..Len(os) : os[k] = os[1]
=============================================================================
