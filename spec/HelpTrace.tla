------------------------------ MODULE HelpTrace -----------------------------
(* Accepts exactly the recorded executions the property allows.  Checks: the build *)
(* has assertions.                                                                 *)
EXTENDS Help, Json, IOUtils
CONSTANT Checks
VARIABLES tid, i, pend
Traces == JsonDeserialize(IOEnv.TRACES)
None == [k |-> ""]
TInit == HInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0) /\ pend = None
SetOf(q) == {q[x] : x \in DOMAIN q}
Step(e) ==
  CASE e.op = "do" -> /\ pend = None
                      /\ IF Stops(e) THEN pend' = [k |-> "stop"] /\ UNCHANGED hvars
                         ELSE Do(e) /\ pend' = [k |-> "ran", n |-> Ran(e)]
    [] e.op = "abort" -> pend.k = "stop" /\ Checks /\ pend' = None /\ UNCHANGED hvars
    [] e.op = "done" -> /\ pend.k = "ran" /\ pend' = None /\ UNCHANGED hvars
                        \* What ran, and that everything given by reference is as it was.
                        /\ e.ran = pend.n /\ e.kept
                        /\ \A x \in Vars : e.empty[x] = (fn[x] = "empty")
                        /\ \A x \in Vars : e.vals[x] = val[x]
                        /\ SetOf(e.live) = Live /\ Len(e.live) = Cardinality(Live)
                        /\ \A x \in Vars : e.own[x] = own[x]
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
