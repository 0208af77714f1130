----------------------------- MODULE DmsTables -----------------------------
(* The tables of the configurations of a run, computed once.               *)
(* CFGS: a JSON object; its "dms" is a sequence of rule texts, the first   *)
(* one being the embedded rules.                                           *)
EXTENDS DaitchMokotoff
DmsTexts == JsonDeserialize(IOEnv.CFGS).dms
DmsTables == LET texts == DmsTexts IN Tup([k \in 1..Len(texts) |-> DmsBuild(texts[k]).table])
=============================================================================
