-------------------------------- MODULE Trace --------------------------------
(* Checks recorded executions of pilo against the mapping machine: every program *)
(* carries the events the real library showed; each event the machine emits must  *)
(* be the next recorded one.  The verdict is total: one line per program, naming   *)
(* the clause that failed.                                                         *)
EXTENDS Pilo, Json, IOUtils
VARIABLE m
Read == JsonDeserialize(IOEnv.PILO_PROGS)
ASSUME LET raw == TLCEval(Read) IN TLCSet(7, TLCEval([i \in 1..Len(raw) |-> Compiled(raw[i])]))   \* read once
TraceProg(p) == TLCGet(7)[p]
Init == \E p \in 1..Len(TLCGet(7)) : m = InitM(p)
\* one named action per kind of frame, so that coverage shows which were taken
At_(S) == <<Running(m) /\ m.exc.x = "" /\ Top(m).pc \in S /\ m' = Step(m)>>_m
Operation  == At_({"OP", "OP1"})
MapForm    == At_({"M0", "M1", "M2", "M3", "M6"})
Capture    == At_({"M4", "M5"})
Enter      == At_({"F0"})
Resolve    == At_({"F1", "F1r"})
Compute    == At_({"F2", "F2r", "F2p", "F3"})
Munge      == At_({"F4", "F4r"})
Filter     == At_({"F5", "F5r"})
Validate   == At_({"F6", "F6r"})
Leave      == At_({"F9"})
Collection == At_({"C0", "C1", "C2", "C3", "C4", "C5", "C6"})
ReadAttr   == At_({"G0", "G1", "G3"})
UserHook   == At_({"H0", "H1", "H2", "H3", "H4"})
Template   == At_({"X0", "X1"})
Exception  == <<Running(m) /\ m.exc.x # "" /\ m' = Step(m)>>_m
Next == \/ Operation \/ MapForm \/ Capture \/ Enter \/ Resolve \/ Compute \/ Munge \/ Filter
        \/ Validate \/ Leave \/ Collection \/ ReadAttr \/ UserHook \/ Template \/ Exception
Verdict == IF Running(m) THEN TRUE
           ELSE IF m.bad # <<>> /\ m.bad[1] = "outside" THEN PrintT("@OUT " \o ToString(m.pid))
           ELSE IF m.bad # <<>> THEN PrintT("@V " \o ToString(m.pid) \o " " \o ToJson(m.bad))
           ELSE IF m.l # Len(Prog(m.pid).obs) THEN PrintT("@V " \o ToString(m.pid) \o " " \o ToJson(<<"extra-event", m.l + 1>>))
           ELSE PrintT("@OK " \o ToString(m.pid))
=============================================================================
