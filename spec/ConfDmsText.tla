---------------------------- MODULE ConfDmsText ----------------------------
(* Conformance of Daitch-Mokotoff: reading rule texts.                     *)
EXTENDS Conform, DaitchMokotoff

DmsTextExpected(r) ==
  LET b == DmsBuild(r.text)
  IN  IF ~b.ok THEN [ok |-> FALSE, k |-> "parse", line |-> b.line, content |-> b.content, codes |-> <<>>]
      ELSE [ok |-> TRUE, k |-> "", line |-> 0, content |-> <<>>,
            codes |-> Tup([k \in 1..Len(r.ins) |-> DmsCodes(b.table, r.fold, r.ins[k])])]
DmsTextAllowed(r) == r.out = DmsTextExpected(r)
=============================================================================
