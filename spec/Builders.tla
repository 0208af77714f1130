------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* The builders of the encoders with rule files.  A builder holds a value  *)
(* for every setting, starting with the defaults; setting one changes only *)
(* that one, building changes nothing, and a clone goes its own way.       *)
(*   events: <<"new", c>>, <<"clone", i>>, <<"set", i, field, value>>,     *)
(*           <<"build", i>>  (builders in the order they were made)        *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* c: the rules it is made with.
BldDefaults(kind, c) ==
  IF kind = "bm" THEN [cfg |-> c, nt |-> "gen", rt |-> "approx", concat |-> TRUE, max |-> 20]
  ELSE [cfg |-> c, fold |-> TRUE]
BldFields(kind) == IF kind = "bm" THEN {"nt", "rt", "concat", "max"} ELSE {"fold"}

\* bs: the settings of every builder.
BldAllows(kind, bs, h) ==
  CASE h[1] = "new" -> TRUE
    [] h[1] \in {"clone", "build"} -> h[2] \in DOMAIN bs
    [] h[1] = "set" -> h[2] \in DOMAIN bs /\ h[3] \in BldFields(kind)
BldAfter(kind, bs, h) ==
  CASE h[1] = "new" -> Append(bs, BldDefaults(kind, h[2]))
    [] h[1] = "clone" -> Append(bs, bs[h[2]])
    [] h[1] = "set" -> [bs EXCEPT ![h[2]][h[3]] = h[4]]
    [] h[1] = "build" -> bs

(* The same without states: what a setting of builder i is after the first k events. *)
BldMakes(h) == h[1] \in {"new", "clone"}
BldMade(hist, k) == Len(SelectSeq(SubSeq(hist, 1, k), BldMakes))
RECURSIVE BldValue(_, _, _, _, _)
BldValue(kind, hist, i, f, k) ==
  LET h == hist[k]
      made == BldMakes(h) /\ BldMade(hist, k) = i
  IN  IF h[1] = "set" /\ h[2] = i /\ h[3] = f THEN h[4]
      ELSE IF made /\ h[1] = "new" THEN BldDefaults(kind, h[2])[f]
      ELSE IF made THEN BldValue(kind, hist, h[2], f, k - 1)
      ELSE BldValue(kind, hist, i, f, k - 1)

(* Two encoders are equal exactly when their settings are. *)
BldSettings(e) ==
  CASE e.alg = "sdx" -> <<e.map, e.hw>>
    [] e.alg = "rsx" -> <<e.map>>
    [] e.alg \in {"met", "dmp", "phx"} -> <<e.max>>
    [] e.alg = "nys" -> <<e.strict>>
    [] e.alg = "dms" -> <<e.cfg, e.fold>>
    [] OTHER -> <<>>
=============================================================================
