------------------------------ MODULE PropagateTrace -----------------------------
(* Accepts exactly the recorded executions that Propagate allows.                  *)
EXTENDS Propagate, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)

TInit == Init /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
