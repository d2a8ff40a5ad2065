------------------------------ MODULE BindTrace -----------------------------
(* Accepts exactly the recorded executions that Bind allows.                    *)
EXTENDS Bind, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == BInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Live == {tg[o].inc : o \in {x \in Places : Here(x)}}
SetOf(q) == {q[x] : x \in DOMAIN q}
Step(e) ==
  CASE e.op = "do" -> (IF st = <<>> THEN TRUE ELSE Top.ph = "in") /\ Valid(e) /\ Do(e)
    [] e.op = "enter" -> st # <<>> /\ Top.to = e.o /\ Top.args = e.args /\ Enter
    [] e.op = "exit" -> e.ok /\ Exit
    [] e.op = "died" -> \E o \in Places : tg[o].inc = e.o /\ Die(o)
    [] e.op = "done" -> Done /\ SetOf(e.alive) = Live /\ Len(e.alive) = Cardinality(Live)
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
