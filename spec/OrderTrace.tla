------------------------------ MODULE OrderTrace ----------------------------
(* Accepts exactly the recorded executions the property allows: programs whose      *)
(* accesses are ordered, every read gives the value certain for it, and nothing has *)
(* been accessed at the same time.                                                 *)
EXTENDS Order, Json, IOUtils
VARIABLES tid, i,
          pend  \* reads and what they have to give, unless an access of an agent that
                \* may as well have run before turns up
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == OInit /\ tid \in DOMAIN Traces /\ i = 0 /\ pend = {} /\ TLCSet(tid, 0)
Kept(e) == IF e.e.k \in {"write", "add"}
           THEN {r \in pend : r.v # e.e.x \/ Knows(vc[e.e.a], r.a, r.c)} ELSE pend
Step(e) ==
  CASE e.op = "do" -> /\ Op(e.e)
                      /\ pend' = IF e.e.k = "read" /\ e.ran /\ Certain(e.e.a, e.e.x)
                                 THEN pend \cup {[v |-> e.e.x, a |-> e.e.a, c |-> vc[e.e.a][e.e.a],
                                                  got |-> e.got, want |-> val[e.e.x]]}
                                 ELSE Kept(e)
                      \* Only a task of a destroyed runner may not have run.
                      /\ IF e.ran THEN TRUE ELSE \E x \in DOMAIN e.destroyed : e.destroyed[x] = home[e.e.a]
    \* Everything an invocation or a task did is there when its function has been
    \* released and the runner destroyed; at no time had anything been accessed by
    \* two at once.
    [] e.op = "final" -> /\ e.races = 0 /\ e.slots /\ e.released
                         /\ \A v \in Vars : det[v] => e.values[v] = val[v]
                         /\ \A r \in pend : r.got = r.want
                         /\ UNCHANGED <<ovars, pend>>
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
