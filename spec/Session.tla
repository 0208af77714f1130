------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Histories of calls.  Encoders are made from configurations, or are      *)
(* copies (clone, written out and read back, built again) of others; the   *)
(* threads invoke calls on them and get results, at the same time or not.  *)
(* That encoding is a pure function means that there is a function of      *)
(* configuration and call that gives every result: the machine keeps what  *)
(* is known of it.  Results are values of any kind.                        *)
(*   events: <<"new", c>>, <<how, i>>, <<"inv", t, i, x>>, <<"ret", t>>    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* encs[i]: configuration of encoder i; pend[t]: <<configuration, call>> being
\* executed; known: function from <<configuration, call>> to results.
SesInit == [encs |-> <<>>, pend |-> [t \in {} |-> <<>>], known |-> [k \in {} |-> ""]]

Copies == {"clone", "serde", "build"}
SesNew(s, c) == [s EXCEPT !.encs = Append(@, c)]
SesCopy(s, i) == [s EXCEPT !.encs = Append(@, s.encs[i])]
SesCanInvoke(s, t, i) == i \in DOMAIN s.encs /\ t \notin DOMAIN s.pend
SesInvoke(s, t, i, x) == [s EXCEPT !.pend = (t :> <<s.encs[i], x>>) @@ @]
\* A call can only return what is known for it, if it is known.
SesCanReturn(s, t, v) ==
  t \in DOMAIN s.pend /\ (s.pend[t] \in DOMAIN s.known => s.known[s.pend[t]] = v)
SesReturn(s, t, v) ==
  [s EXCEPT !.known = @ @@ (s.pend[t] :> v), !.pend = [u \in DOMAIN @ \ {t} |-> @[u]]]

\* Whether an event (with its outcome) is allowed, and what comes after it.
SesAllows(s, h, v) ==
  CASE h[1] = "new" -> TRUE
    [] h[1] \in Copies -> h[2] \in DOMAIN s.encs
    [] h[1] = "inv" -> SesCanInvoke(s, h[2], h[3])
    [] h[1] = "ret" -> SesCanReturn(s, h[2], v)
SesAfter(s, h, v) ==
  CASE h[1] = "new" -> SesNew(s, h[2])
    [] h[1] \in Copies -> SesCopy(s, h[2])
    [] h[1] = "inv" -> SesInvoke(s, h[2], h[3], h[4])
    [] h[1] = "ret" -> SesReturn(s, h[2], v)
=============================================================================
