----------------------------- MODULE BmConfigs -----------------------------
(* The Beider-Morse configurations of a run, computed once.  CFGS: a JSON   *)
(* object; every element of its "bm" is a folder of files that loads, or    *)
(* says "none".                                                             *)
EXTENDS BeiderMorse
BmCfgOf(e) ==
  IF "files" \notin DOMAIN e THEN [none |-> TRUE]
  ELSE LET c == BmLoad(e.files, "DIR").v
       IN  \* The embedded rules guess nothing: they come without list of languages.
           IF "embedded" \in DOMAIN e
           THEN [c EXCEPT !.langs = Fun([nt \in SetOf(BmNameTypes) |-> [langs |-> {}, rules |-> <<>>]])] ELSE c
BmCfgs == LET es == JsonDeserialize(IOEnv.CFGS).bm IN Tup([k \in 1..Len(es) |-> BmCfgOf(es[k])])
=============================================================================
