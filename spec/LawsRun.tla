------------------------------ MODULE LawsRun -------------------------------
(* The laws of Laws.tla on the programs of a file.                              *)
EXTENDS Laws
Read == JsonDeserialize(IOEnv.PILO_PROGS)
ASSUME LET raw == TLCEval(Read) IN TLCSet(7, TLCEval([i \in 1..Len(raw) |-> Compiled(raw[i])]))
=============================================================================
