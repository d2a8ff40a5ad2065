------------------------------ MODULE WeakTrace -----------------------------
(* Accepts exactly the recorded executions that Weak allows.  e.y: what every   *)
(* weak pointer yields after the call (100: something that is not there).  e.c: the       *)
(* different answers of the members of every crowd.                              *)
EXTENDS Weak, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == WInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) == /\ e.op = "done" /\ Valid(e) /\ Do(e)
           /\ "c" \in DOMAIN e => /\ Len(e.c) = Len(cr')
                                 /\ \A g \in DOMAIN e.c : e.c[g] = <<CrowdYields(g)'>>
           /\ \A p \in Ptrs : wp'[p].ty # "none" => e.y[p] \in Yields(p)'
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
