----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* The histories of Session: all interleavings of a few threads, encoders  *)
(* and calls, or (simulation) random long histories, written out for       *)
(* replay on the code.                                                     *)
(***************************************************************************)
EXTENDS Session, Json, FiniteSets
CONSTANTS Threads, Configs, Calls, MaxEncs, MaxEvents, Show
VARIABLES ses, hist

Result(k) == ToString(k)  \* stands for any function of configuration and call
MCInit == ses = SesInit /\ hist = <<>>
Ev(h, v) == SesAllows(ses, h, v) /\ ses' = SesAfter(ses, h, v) /\ hist' = Append(hist, h)
New == \E c \in Configs : Len(ses.encs) < MaxEncs /\ Ev(<<"new", c>>, "")
Copy == \E how \in Copies, i \in DOMAIN ses.encs : Len(ses.encs) < MaxEncs /\ Ev(<<how, i>>, "")
Invoke == \E t \in Threads, i \in DOMAIN ses.encs, x \in Calls : Ev(<<"inv", t, i, x>>, "")
Return == \E t \in DOMAIN ses.pend : Ev(<<"ret", t>>, Result(ses.pend[t]))
\* Pending calls return at the end.
Room == Len(hist) + Cardinality(DOMAIN ses.pend) < MaxEvents
MCNext == (Room /\ (New \/ Copy \/ Invoke)) \/ Return
MCSpec == MCInit /\ [][MCNext]_<<ses, hist>>

TypeOK ==
  /\ \A i \in DOMAIN ses.encs : ses.encs[i] \in Configs
  /\ \A t \in DOMAIN ses.pend : t \in Threads /\ ses.pend[t] \in Configs \X Calls
\* What is known is the function, whatever the history.
Pure == \A k \in DOMAIN ses.known : ses.known[k] = Result(k)
\* A thread is never in two calls, and every call that is pending was invoked and did not return.
Open(t) == Cardinality({k \in DOMAIN hist : hist[k][1] = "inv" /\ hist[k][2] = t})
           - Cardinality({k \in DOMAIN hist : hist[k][1] = "ret" /\ hist[k][2] = t})
Balanced == \A t \in Threads : Open(t) = (IF t \in DOMAIN ses.pend THEN 1 ELSE 0)
\* Nothing else can be returned for what is known.
NoOther == \A t \in DOMAIN ses.pend : ses.pend[t] \in DOMAIN ses.known => ~SesCanReturn(ses, t, "other")
Done == ~Room /\ DOMAIN ses.pend = {}
Emit == Show /\ Done => PrintT(<<"CASE", ToJson([hist |-> hist])>>)
=============================================================================
