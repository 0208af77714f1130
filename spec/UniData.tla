------------------------------ MODULE UniData ------------------------------
(* The table of the characters beyond ASCII, as the harness wrote it. *)
EXTENDS Sequences, Json, IOUtils
UTabRecs == ndJsonDeserialize(IOEnv.UTAB)
=============================================================================
