------------------------------ MODULE FuncTrace -----------------------------
(* Accepts exactly the recorded executions the property allows: function objects  *)
(* and vectors that were built.  want: what is to happen next.                    *)
EXTENDS Func, Json, IOUtils
VARIABLES tid, i, want
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == /\ FInit /\ want = <<>>
         /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Same(o) == Len(o) = 3 /\ \A x \in Vars : o[x] = <<v[x].id, v[x].n>>
Step(e) ==
  CASE e.op = "do" ->
         /\ want = <<>>
         /\ CASE e.k = "fill" -> Fill(e.x, e.id) /\ want' = <<"st">>
              [] e.k = "take" -> Take(e.x, e.y) /\ want' = <<"st">>
              [] e.k = "drop" -> Drop(e.x) /\ want' = <<"st">>
              [] e.k = "call" -> Call(e.x) /\ want' = <<"ran", v[e.x].id, v[e.x].n + 1, "", 0, 0>>
              [] e.k = "fire" -> Fire(e.x) /\ want' = <<"ran", v[e.x].id, v[e.x].n + 1, e.do, e.y, IF e.do = "take" THEN e.x ELSE e.id>>
              [] OTHER -> FALSE
    \* The body begins: which one, for which time, what the variables hold.
    [] e.op = "ran" -> /\ want # <<>> /\ want[1] = "ran" /\ want[2] = e.id /\ want[3] = e.n
                       \* While a variable's own object runs only the others are looked at.
                       /\ e.v = [x \in Vars |-> IF cur = <<>> /\ v[x].id = e.id THEN <<>> ELSE <<v[x].id, v[x].n>>]
                       /\ want' = <<"st">>
                       /\ v' = CASE want[4] = "fill" -> [v EXCEPT ![want[5]] = F(want[6])]
                                 [] want[4] = "take" -> [z \in Vars |-> IF z = want[5] THEN v[want[6]] ELSE IF z = want[6] THEN None ELSE v[z]]
                                 [] OTHER -> v
                       /\ UNCHANGED cur
    [] e.op = "st" -> /\ want = <<"st">> /\ e.ok
                      /\ cur' = <<>> /\ UNCHANGED v
                      /\ Same(e.v) /\ {e.live[x] : x \in DOMAIN e.live} = {v[x].id : x \in Vars} \ {0}
                      /\ want' = <<>>
    [] e.op = "built" -> e.got = e.l /\ UNCHANGED <<v, cur, want>>
    [] e.op = "end" -> want = <<>> /\ e.live = 0 /\ UNCHANGED <<v, cur, want>>
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
