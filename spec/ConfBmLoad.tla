----------------------------- MODULE ConfBmLoad -----------------------------
(***************************************************************************)
(* Conformance of reading Beider-Morse configurations: the folder of the   *)
(* record loads, and then encodes the probes as the files say, or fails    *)
(* with the right error.                                                   *)
(***************************************************************************)
EXTENDS Conform, BeiderMorse

\* A folder without files is an array in JSON.
FilesOf(r) == IF Len(r.names) = 0 THEN [x \in {} |-> <<>>] ELSE r.files
Probe(cfg, p) ==
  LET o == [nt |-> p.nt, rt |-> p.rt, concat |-> p.concat, max |-> p.max]
  IN  IF p.langs.k = "guess" THEN BmEncode(cfg, o, p.in) ELSE BmEncodeIn(cfg, o, p.in, LOfJson(p.langs))
BadLoad(e) == [ok |-> FALSE, k |-> e.k, line |-> e.line, content |-> e.content, file |-> e.file, codes |-> <<>>]
BmlExpected(r) ==
  LET v == BmLoad(FilesOf(r), "DIR")
  IN  IF v.ok
      THEN [ok |-> TRUE, k |-> "", line |-> 0, content |-> <<>>, file |-> "",
            codes |-> Tup([i \in 1..Len(r.probes) |-> Probe(v.v, r.probes[i])])]
      ELSE BadLoad(v.e)
BmlAllowed(r) ==
  LET x == BmlExpected(r)
  IN  \/ r.out = x
      \/ \E e \in BmBrokenLists(FilesOf(r)) : r.out = BadLoad(e.e)
BmlLane == 4
=============================================================================
