----------------------------- MODULE ConfTotal -----------------------------
(***************************************************************************)
(* Every call returns, with a value of the type of its operation: a call   *)
(* that unwinds, never returns or ends the process is no behaviour of the  *)
(* specification, whatever the text and the configuration.                 *)
(***************************************************************************)
EXTENDS Conform, Types

TotAllowed(r) == OutcomeOk(r.op, r.out)
TotExpected(r) == <<>>
=============================================================================
