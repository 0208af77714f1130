------------------------------ MODULE ConfBuild ------------------------------
(***************************************************************************)
(* Encoders built by histories of builders give what encoders give that    *)
(* are built at once with the settings the specification says, and the     *)
(* comparison of encoders is the comparison of their settings.             *)
(***************************************************************************)
EXTENDS Conform, Builders, Loops, FiniteSets

BldRun(r) ==
  Fold(LAMBDA a, h : IF ~BldAllows(r.kind, a.bs, h) THEN [a EXCEPT !.ok = FALSE]
                     ELSE [ok |-> a.ok, bs |-> BldAfter(r.kind, a.bs, h),
                           built |-> IF h[1] = "build" THEN Append(a.built, a.bs[h[2]]) ELSE a.built],
       [ok |-> TRUE, bs |-> <<>>, built |-> <<>>], r.hist)
BuildAllowed(r) ==
  CASE r.op = "bld" ->
         LET x == BldRun(r)
         IN  /\ x.ok /\ x.built = r.want
             /\ Len(r.out.got) = Len(r.want)
             /\ r.out.got = r.out.ref
             /\ r.out.same
    [] r.op = "cfgeq" ->
         LET eq == BldSettings(r.a) = BldSettings(r.b)
         IN  r.out.eq = eq /\ r.out.rev = eq /\ r.out.cmp = eq /\ (eq => r.out.hash) /\ r.out.self
    [] r.op = "bldref" ->
         \* The probes tell all settings apart.
         Cardinality({r.out[k] : k \in 1..Len(r.out)}) = Len(r.out)
BuildExpected(r) ==
  CASE r.op = "bld" -> [want |-> BldRun(r).built]
    [] r.op = "cfgeq" -> [eq |-> BldSettings(r.a) = BldSettings(r.b)]
    [] r.op = "bldref" -> <<>>
=============================================================================
