----------------------------- MODULE DeviceTrace ----------------------------
(* Accepts exactly the recorded executions the property allows.                    *)
EXTENDS Device, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == DInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) ==
  CASE e.op = "start" -> Start(e.t)
    [] e.op = "ask" -> Ask(e.t, e.d) /\ e.random
    [] e.op = "together" -> AskAll(e.t, e.d, dev) /\ e.random
    [] e.op = "exit" -> Exit(e.t)
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
