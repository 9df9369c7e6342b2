------------------------------- MODULE Threads -------------------------------
(* Several threads, each a mapping machine of its own over the same declarations. *)
(* A thread can be suspended at its gates: between operations and inside hooks.    *)
(* The grid part explores every interleaving of the gates and checks that no       *)
(* thread ever shows anything it would not show alone; the sched part enumerates   *)
(* the schedules with at most MaxSwitch context switches, which the real threads   *)
(* are then made to follow (harness/threads.py).                                   *)
EXTENDS Pilo, Json, IOUtils
VARIABLE st
ASSUME LET raw == TLCEval(JsonDeserialize(IOEnv.PILO_PROGS)) IN
       TLCSet(7, TLCEval([i \in 1..Len(raw) |-> Compiled(raw[i])]))
ASSUME TLCSet(8, TLCEval(JsonDeserialize(IOEnv.PILO_GROUPS)))    \* <<<<pid, ...>>, ...>>
ThreadProg(p) == TLCGet(7)[p]
Groups == TLCGet(8)
\* all switch counts up to this are enumerated
MaxSwitch == IF IOEnv.PILO_SWITCHES = "3" THEN 3 ELSE IF IOEnv.PILO_SWITCHES = "1" THEN 1 ELSE 2

IsGate(ev) == ev.e \in {"hook", "op"}
GatesOf(log) == Len(SelectSeq(log, IsGate))
RECURSIVE Slice(_, _)
Slice(m, n) == IF ~Running(m) \/ GatesOf(m.log) > n THEN m ELSE Slice(Step(m), n)   \* up to the next gate
RECURSIVE Alone(_)
Alone(m) == IF Running(m) THEN Alone(Step(m)) ELSE m
ASSUME TLCSet(9, TLCEval([p \in 1..Len(TLCGet(7)) |-> Alone(InitM(p)).log]))
SoloLog(p) == TLCGet(9)[p]
Gates(g) == [t \in 1..Len(Groups[g]) |-> GatesOf(SoloLog(Groups[g][t])) + 1]

\* so many gates altogether, at most, that all interleavings are explored
MaxGrid == IF IOEnv.PILO_DEEP = "1" THEN 12000 ELSE 1500
RECURSIVE Times(_)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))

Init == \E g \in 1..Len(Groups) :
          \/ Times(Gates(g)) <= MaxGrid /\ st = [k |-> "grid", g |-> g, ms |-> [t \in 1..Len(Groups[g]) |-> InitM(Groups[g][t])]]
          \/ st = [k |-> "sched", g |-> g, left |-> Gates(g), cur |-> 0, seq |-> <<>>]
RunThread == <<st.k = "grid" /\ \E t \in 1..Len(st.ms) :
                  Running(st.ms[t]) /\ st' = [st EXCEPT !.ms[t] = Slice(@, GatesOf(@.log))]>>_st
Others(s, t) == {i \in 1..Len(s.left) : i # t /\ s.left[i] > 0}
Segment == /\ st.k = "sched" /\ Len(st.seq) <= MaxSwitch
           /\ \E t \in 1..Len(st.left) : \E n \in 1..st.left[t] :
                /\ t # st.cur
                /\ Len(st.seq) + Cardinality(Others(st, t)) <= MaxSwitch       \* can still be completed
                /\ n < st.left[t] => Len(st.seq) + Cardinality(Others(st, t)) + 1 <= MaxSwitch /\ Others(st, t) # {}
                /\ st' = [st EXCEPT !.left[t] = @ - n, !.cur = t, !.seq = Append(@, <<t, n>>)]
Next == RunThread \/ Segment
\* what a thread showed so far is what it shows alone
NotAffected == st.k = "grid" =>
  \A t \in 1..Len(st.ms) : LET log == st.ms[t].log  solo == SoloLog(Groups[st.g][t]) IN
     /\ Len(log) <= Len(solo) /\ SubSeq(solo, 1, Len(log)) = log
     /\ ~Running(st.ms[t]) => log = solo
Schedules == IF st.k = "sched" /\ \A t \in 1..Len(st.left) : st.left[t] = 0
             THEN PrintT("@S " \o ToJson(<<st.g, st.seq>>)) ELSE TRUE
=============================================================================
