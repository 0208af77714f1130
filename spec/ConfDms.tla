------------------------------ MODULE ConfDms ------------------------------
(* Conformance of Daitch-Mokotoff: encoding with the tables of the run.    *)
EXTENDS Conform, DmsTables

DmsExpected(r) ==
  LET t == DmsTables[r.enc.cfg + 1]
      all == DmsCodes(t, r.enc.fold, r.in)
      first == DmsFirst(t, r.enc.fold, r.in)
  IN  [all |-> all, first |-> <<first>>, s |-> Join(all, <<cPipe>>), e |-> first]
DmsAllowed(r) == r.out = DmsExpected(r)
=============================================================================
