------------------------------ MODULE GuidTrace -----------------------------
(* Accepts exactly the recorded executions the property allows.  varied: the      *)
(* digits seen at each free place so far, to be complete in the end.             *)
EXTENDS Guid, Json, IOUtils
VARIABLES tid, i, seen, varied
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == /\ seen = {} /\ varied = [p \in 1..36 |-> {}]
         /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Step(e) ==
  CASE e.op = "gen" -> /\ IsOutput(e.c) /\ e.same
                       /\ e.valid /\ e.output /\ e.upvalid
                       /\ e.r \notin seen /\ seen' = seen \cup {e.r}
                       /\ varied' = [p \in 1..36 |-> varied[p] \cup {e.c[p]}]
    \* Made from a source of bits that we control: the form only.
    [] e.op = "made" -> IsOutput(e.c) /\ e.same /\ e.valid /\ e.output /\ e.upvalid /\ UNCHANGED <<seen, varied>>
    [] e.op = "all" -> /\ \A p \in Free : varied[p] = Dig \cup Low
                       /\ varied[20] = {"8", "9", "a", "b"}
                       /\ UNCHANGED <<seen, varied>>
    [] e.op = "valid" -> e.v = IsValid(e.c) /\ e.o = IsOutput(e.c) /\ UNCHANGED <<seen, varied>>
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
