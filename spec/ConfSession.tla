---------------------------- MODULE ConfSession ----------------------------
(* Recorded histories of calls, and results of the same call in many runs, are behaviours of Session. *)
EXTENDS Conform, Session, Loops

\* The first event of a history that is not allowed (0: none).
SesBad(r) ==
  Fold(LAMBDA a, k : IF a.bad > 0 THEN a
                     ELSE IF SesAllows(a.s, r.hist[k], r.out[k]) THEN [a EXCEPT !.s = SesAfter(@, r.hist[k], r.out[k])]
                     ELSE [a EXCEPT !.bad = k],
       [s |-> SesInit, bad |-> 0], [k \in 1..Len(r.hist) |-> k]).bad
SessAllowed(r) ==
  CASE r.op = "ses" -> SesBad(r) = 0
    [] r.op = "obs" -> Len(r.outs) = 1
SessExpected(r) ==
  CASE r.op = "ses" -> [event |-> SesBad(r)]
    [] r.op = "obs" -> [results |-> Len(r.outs)]
=============================================================================
