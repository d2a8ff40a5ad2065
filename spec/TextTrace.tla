------------------------------ MODULE TextTrace -----------------------------
(* Accepts exactly the recorded calls that Text allows.  The arguments come with *)
(* what stands for them written out.                                             *)
EXTENDS Text, Json, IOUtils
CONSTANTS Checks
VARIABLES tid, i, pend
Traces == JsonDeserialize(IOEnv.TRACES)
Nothing == [op |-> "nothing"]
TInit == pend = Nothing /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) ==
  CASE e.op = "do" -> pend = Nothing /\ pend' = e
    [] e.op = "done" -> /\ pend # Nothing /\ pend' = Nothing
                        /\ IF pend.k = "cat" THEN e.r = Cat(pend.l)
                           ELSE LET s == Formatted(pend.f, pend.l) IN s.ok /\ e.r = s.text
    [] e.op = "abort" -> /\ pend # Nothing /\ Checks /\ pend.k = "fmt" /\ ~Formatted(pend.f, pend.l).ok
                         /\ pend' = Nothing
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
