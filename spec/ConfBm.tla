------------------------------- MODULE ConfBm -------------------------------
(* Conformance of Beider-Morse: encoding with the configurations of the    *)
(* run, with guessed or given languages.                                   *)
EXTENDS Conform, BmConfigs

BmExpected(r) ==
  LET cfg == BmCfgs[r.enc.cfg + 1]
      o == [nt |-> r.enc.nt, rt |-> r.enc.rt, concat |-> r.enc.concat, max |-> r.enc.max]
  IN  IF r.langs.k = "guess" THEN BmEncode(cfg, o, r.in) ELSE BmEncodeIn(cfg, o, r.in, LOfJson(r.langs))
\* Names differ much in what they cost.
BmLane == 6
BmAllowed(r) == r.out = BmExpected(r)
=============================================================================
