----------------------------- MODULE MC_Builders -----------------------------
(* All histories of a few events on builders, written out for replay. *)
EXTENDS Builders, TLC, Json
CONSTANTS Kind, Cfgs, MaxBuilders, MaxEvents, Show
VARIABLES bld, hist, built

Init == bld = <<>> /\ hist = <<>> /\ built = <<>>
Ev(h) == BldAllows(Kind, bld, h) /\ bld' = BldAfter(Kind, bld, h) /\ hist' = Append(hist, h)
         /\ built' = IF h[1] = "build" THEN Append(built, bld[h[2]]) ELSE built
New == \E c \in Cfgs : Len(bld) < MaxBuilders /\ Ev(<<"new", c>>)
Clone == \E i \in DOMAIN bld : Len(bld) < MaxBuilders /\ Ev(<<"clone", i>>)
Set ==
  \E i \in DOMAIN bld :
    IF Kind = "bm"
    THEN \/ \E v \in {"ash", "gen", "sep"} : Ev(<<"set", i, "nt", v>>)
         \/ \E v \in {"approx", "exact"} : Ev(<<"set", i, "rt", v>>)
         \/ \E v \in BOOLEAN : Ev(<<"set", i, "concat", v>>)
         \/ \E v \in {0, 3, 20, 21} : Ev(<<"set", i, "max", v>>)
    ELSE \E v \in BOOLEAN : Ev(<<"set", i, "fold", v>>)
Build == \E i \in DOMAIN bld : Ev(<<"build", i>>)
Room == Len(hist) < MaxEvents
\* Every history ends with an encoder.
Next == Room /\ (Build \/ (Len(hist) + 1 < MaxEvents /\ (New \/ Clone \/ Set)))
BldSpec == Init /\ [][Next]_<<bld, hist, built>>

\* The machine and the definition over the history are the same.
SameValue ==
  \A i \in DOMAIN bld : \A f \in BldFields(Kind) : bld[i][f] = BldValue(Kind, hist, i, f, Len(hist))
\* Nothing but setting changes a builder, and setting only one setting of one builder.
OnlySet ==
  [][\A i \in DOMAIN bld :
        bld'[i] # bld[i] =>
          LET h == hist'[Len(hist')]
          IN  h[1] = "set" /\ h[2] = i /\ \A f \in BldFields(Kind) \ {h[3]} : bld'[i][f] = bld[i][f]]_<<bld, hist, built>>
Ends == hist # <<>> /\ hist[Len(hist)][1] = "build"
Emit == Show /\ Ends /\ ~Room => PrintT(<<"CASE", ToJson([hist |-> hist, want |-> built])>>)
=============================================================================
