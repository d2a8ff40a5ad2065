------------------------------ MODULE NullTrace -----------------------------
(* Accepts exactly the recorded executions that Null allows.  Checks: the build *)
(* has assertions.                                                               *)
EXTENDS Null, Json, IOUtils
CONSTANTS Checks
VARIABLES tid, i, pend
Traces == JsonDeserialize(IOEnv.TRACES)
Nothing == [op |-> "nothing"]
TInit == NInit /\ pend = Nothing /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
SetOf(q) == {q[x] : x \in DOMAIN q}
Exact(q, S) == SetOf(q) = S /\ Len(q) = Cardinality(S)
Step(e) ==
  CASE e.op = "do" -> pend = Nothing /\ Valid(e) /\ (Checks \/ ~MayAbort(e)) /\ pend' = e /\ UNCHANGED nvars
    [] e.op = "ret" -> pend.op = "do" /\ ~MustAbort(pend) /\ pend' = [pend EXCEPT !.op = "ret"] /\ UNCHANGED nvars
    [] e.op = "done" ->
         /\ pend.op = "ret" /\ pend' = Nothing
         /\ Do(pend) /\ Answer(pend, e.r, e.truth)
         /\ Exact(e.alive, Owned(sl'))
         \* Whatever is stored is what was stored last.
         /\ \A s \in Slots : (sl'[s].w # "none" /\ ~sl'[s].moved) => e.vals[s] = sl'[s].to
    [] e.op = "abort" -> pend.op = "do" /\ Checks /\ MayAbort(pend) /\ pend' = Nothing /\ UNCHANGED nvars
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
