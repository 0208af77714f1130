------------------------------ MODULE ConfRel ------------------------------
(* Observations of the code that are checked against each other. *)
EXTENDS Conform, Relations

RelAllowed(r) ==
  CASE r.op = "limx" -> LimitAllowed(r.alg, r.in, r.ns, r.out)
    [] r.op = "eqx" -> EqAllowed(r.out)
    [] r.op = "casx" -> CaseAllowed(r.out)
RelExpected(r) == <<>>
=============================================================================
