---------------------------- MODULE ConfSimple ----------------------------
(* Conformance of the algorithms without rule files. *)
EXTENDS Conform, Encoders

SimpleExpected(r) ==
  CASE r.op = "enc" -> SimpleEncode(r.enc, r.in)
    [] r.op = "dmpx" -> DmpAll(r.enc, r.in)
    [] r.op = "eq" -> SimpleEquals(r.enc, r.a, r.b)
    [] r.op = "ctor" -> MappingCtor(r.alg, r.s, r.in)
    [] r.op = "chs" -> [out |-> SliceBy(r.s, r.kind, r.lo, r.hi), len |-> Len(r.s), empty |-> r.s = <<>>, same |-> TRUE]
SimpleAllowed(r) == r.out = SimpleExpected(r)
=============================================================================
