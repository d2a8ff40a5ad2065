----------------------------- MODULE StatusTrace ----------------------------
(* Accepts exactly the recorded executions that Status allows, as far as the    *)
(* property Id speaks about them.  Checks: the build has assertions.            *)
EXTENDS Status, Json, IOUtils
CONSTANTS Id, Checks
VARIABLES tid, i, pend
Traces == JsonDeserialize(IOEnv.TRACES)
Nothing == [op |-> "nothing"]
TInit == SInit /\ pend = Nothing /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)

Off == dead      \* the rest says nothing about this property
SetOf(q) == {q[x] : x \in DOMAIN q}
Exact(q, S) == SetOf(q) = S /\ Len(q) = Cardinality(S)
Step(e) ==
  CASE e.op = "do" -> pend = Nothing /\ pend' = e /\ UNCHANGED svars /\ (Off \/ Valid(e))
    [] e.op = "done" ->
         /\ pend # Nothing /\ pend' = Nothing
         /\ IF Off THEN UNCHANGED svars
            ELSE IF Checks /\ MustAbort(pend)
            THEN Id # "S01" /\ dead' = TRUE /\ UNCHANGED sl
            ELSE /\ Do(pend) /\ UNCHANGED dead
                 /\ Id = "S02" => /\ Answer(pend, e.r)
                                  /\ Exact(e.vals, Values(sl')) /\ Exact(e.errs, Errors(sl'))
    [] e.op = "abort" -> /\ pend # Nothing
                         /\ Id = "S01" => Off \/ (Checks /\ MustAbort(pend))
                         /\ UNCHANGED <<sl, dead, pend>>
    [] e.op = "end" -> /\ Id = "S02" => Off \/ (e.objs = 0 /\ e.bad = 0)
                       /\ UNCHANGED <<sl, dead, pend>>
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
