------------------------------ MODULE PrefsTrace ----------------------------
(* Accepts exactly the recorded executions that Prefs allows.                   *)
EXTENDS Prefs, Json, IOUtils
CONSTANTS Checks
VARIABLES tid, i, pend
Traces == JsonDeserialize(IOEnv.TRACES)
Nothing == [op |-> "nothing"]
TInit == PInit /\ pend = Nothing /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) ==
  CASE e.op = "do" -> pend = Nothing /\ Valid(e) /\ (Checks \/ ~MayAbort(e)) /\ pend' = e /\ UNCHANGED pvars
    [] e.op = "ret" -> /\ pend.op = "do" /\ ~MustAbort(pend) /\ Do(pend) /\ Answer(pend, e.r)
                       /\ pend' = [pend EXCEPT !.op = "ret"]
    \* All preferences read back, each with its type.
    [] e.op = "all" -> /\ pend.op = "ret" /\ pend' = Nothing /\ UNCHANGED pvars
                       /\ \A x \in DOMAIN e.vals : e.vals[x][2] = Now(e.vals[x][1])
    [] e.op = "abort" -> pend.op = "do" /\ Checks /\ MayAbort(pend) /\ pend' = Nothing /\ UNCHANGED pvars
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
