------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Trace checking.  The harness records what the real code did, one record *)
(* per call; this machine walks over the records (in several lanes, so     *)
(* that TLC's workers share them) and the invariant says that every one of *)
(* them is what the specification allows.  Expected(r) is the outcome the  *)
(* specification gives to the call of record r (for the message), and      *)
(* Allowed(r) tells whether the specification allows the record.           *)
(* (The name of the variable is used nowhere else: TLC takes a constant    *)
(* definition with a bound variable of that name for a state function, and *)
(* computes it at every use.)                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Allowed(_), Expected(_)
VARIABLE cursor

Recs == ndJsonDeserialize(IOEnv.RECS)
NumRecs == Len(Recs)
Lane == 40

Init == cursor \in {k \in 1..NumRecs : (k - 1) % Lane = 0}
Next == cursor % Lane # 0 /\ cursor < NumRecs /\ cursor' = cursor + 1
Spec == Init /\ [][Next]_cursor

Observed == Recs[cursor].st = "ok" /\ Allowed(Recs[cursor])
\* Records of findings that are known carry the mark "known".
Known == "known" \in DOMAIN Recs[cursor]
Conforms == Observed \/ Known \/ (PrintT(<<"MISMATCH", cursor, ToJson([expected |-> Expected(Recs[cursor])])>>) /\ FALSE)
=============================================================================
