------------------------------ MODULE ContTrace -----------------------------
(* Accepts exactly the recorded executions the property allows.                    *)
EXTENDS Cont, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == c = <<>> /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Min(a, b) == IF a < b THEN a ELSE b
Step(e) ==
  CASE e.op = "did" -> Allowed(e, e.c, e.r) /\ c' = e.c
    \* Elements one by one from the back.
    [] e.op = "reversed" -> e.got = Rev(c) /\ e.there /\ UNCHANGED c
    \* Each arrangement comes out about as often as another.
    [] e.op = "spread" -> /\ Len(e.counts) = Fact(e.n)
                          /\ \A x \in DOMAIN e.counts : 4 * e.counts[x] * Fact(e.n) \in (3 * e.total)..(5 * e.total)
                          /\ UNCHANGED c
    \* A string keeps what remains of it and has the size asked for.
    [] e.op = "resized" -> /\ Len(e.after) = e.n /\ e.ended /\ e.plain
                           /\ \A x \in 1..Min(Len(e.before), e.n) : e.after[x] = e.before[x]
                           /\ UNCHANGED c
    [] e.op = "null" -> UNCHANGED c
    [] e.op = "abort" -> i > 0 /\ Traces[tid][i].op = "null" /\ UNCHANGED c
    [] e.op = "end" -> (i > 0 => Traces[tid][i].op # "null") /\ UNCHANGED c
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
