----------------------------- MODULE TimerTrace -----------------------------
(* Accepts exactly the recorded executions that Timer allows.               *)
EXTENDS Timer, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)

TInit == Init /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
TNext == /\ i < Len(Traces[tid])
         /\ LET e == Traces[tid][i + 1]
            IN /\ Step(e)
               \* the flags every live timer reported right after the event
               /\ \A t \in Timers : e.r[t] = Flag(t)'
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
