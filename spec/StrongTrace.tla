----------------------------- MODULE StrongTrace ----------------------------
(* Accepts exactly the recorded executions the property allows.                    *)
EXTENDS Strong, Json, IOUtils
VARIABLES tid, i, pend
Traces == JsonDeserialize(IOEnv.TRACES)
None == [k |-> ""]
TInit == SInit /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0) /\ pend = None
Step(e) ==
  CASE e.op = "do" -> pend = None /\ Op(e) /\ pend' = e
    [] e.op = "done" ->
         /\ pend # None /\ pend' = None
         /\ e.copies \in {Copies(pend.k), -1}
         /\ \A s \in Slots : Is(s) => e.vals[s] = sl[s]
         /\ \A s \in Slots : (e.vals[s] # Gone) = Exists(s)
         /\ {<<c.a, c.b>> : c \in {e.cmp[x] : x \in DOMAIN e.cmp}} = {p \in Live \X Live : TRUE}
         /\ \A x \in DOMAIN e.cmp : LET c == e.cmp[x] IN c.r = Compared(sl[c.a], sl[c.b])
         \* Equal values are found, others not.
         /\ e.hashok
         /\ Ordered => e.inset = Cardinality(Content)
         /\ Kind \notin {"double", "pair"} => e.inhash = Cardinality(Content)
         /\ UNCHANGED sl
    [] e.op = "static" ->
         /\ pend = None
         \* Made from and into the underlying type explicitly only, never from or into another type.
         /\ e.explicitin /\ e.explicitout /\ ~e.implicitin /\ ~e.implicitout
         /\ ~e.across /\ ~e.acrossassign /\ ~e.acrosscompare /\ e.small /\ e.quietmove
         /\ UNCHANGED <<sl, pend>>
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
