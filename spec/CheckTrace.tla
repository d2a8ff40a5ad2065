----------------------------- MODULE CheckTrace -----------------------------
(* Accepts exactly the recorded executions the property allows.                    *)
EXTENDS Check, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == CInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) ==
  CASE e.op = "begin" -> Begin(e.k, e.m, e.v)
    [] e.op = "eval" -> Eval(e.k)
    [] e.op = "value" -> Value(e.k)
    [] e.op = "past" -> Past(e.k, e.got)
    [] e.op = "abort" -> Abort
    [] e.op = "end" -> End
    \* What the build says of itself, and what classes that are not to be copied or assigned allow.
    [] e.op = "flags" -> /\ e.dcheck = Checks /\ e.on /\ ~e.off /\ e.cat = "1234"
                         /\ UNCHANGED cvars
    [] e.op = "class" -> /\ e.copy = (e.kind \in {"free", "noassign"}) /\ e.assign = (e.kind \in {"free", "nocopy"})
                         /\ e.create = (e.kind # "none")
                         /\ UNCHANGED cvars
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
