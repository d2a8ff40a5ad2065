----------------------------- MODULE LoggerTrace ----------------------------
(* Accepts exactly the recorded executions that Logger allows.                  *)
EXTENDS Logger, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == LInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) ==
  CASE e.op = "do" -> Valid(e) /\ Do(e)
    [] e.op = "line" -> Line(e.l, e.text)
    [] e.op = "done" -> Done
    [] e.op = "abort" -> Abort
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
