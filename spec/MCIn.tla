-------------------------------- MODULE MCIn --------------------------------
(* What a model is checked on, handed over by run.py. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
MCInput == ndJsonDeserialize(IOEnv.MCIN)[1]
MCFrags == MCInput.frags
SetOfSeq(q) == ToSet(q)
=============================================================================
