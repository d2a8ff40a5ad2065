------------------------------ MODULE TimerMC ------------------------------
(* Small-scope exploration of Timer; every edge is printed for replay.      *)
EXTENDS Timer, Json, TLCExt
CONSTANTS MaxStarts, MaxNow, MaxDepth, MaxInc, Emit
VARIABLES obs, ntask
mvars == <<vars, obs, ntask>>

MInit == Init /\ obs = [op |-> "init"] /\ ntask = 0

KeepTask == ntask' = ntask
MNext ==
  \/ \E t \in Timers, d \in Delays :
       /\ ntask < MaxStarts
       /\ Start(t, ntask + 1, d) /\ ntask' = ntask + 1
       /\ obs' = [op |-> "start", t |-> t, k |-> ntask + 1, d |-> d]
  \/ /\ KeepTask
     /\ \/ \E t \in Timers : Depth("cb") < MaxDepth /\ Fire(t) /\ obs' = [op |-> "fire", t |-> t]
        \/ \E t \in Timers : FireRet(t) /\ obs' = [op |-> "fireret", t |-> t]
        \/ \E t \in Timers : Destroy(t) /\ obs' = [op |-> "destroy", t |-> t]
        \/ \E t \in Timers : tm[t].inc < MaxInc /\ Create(t) /\ obs' = [op |-> "create", t |-> t]
        \/ \E d \in {1} : now < MaxNow /\ Advance(d) /\ obs' = [op |-> "adv", d |-> d]
        \/ Poll /\ q # {} /\ obs' = [op |-> "poll"]
        \/ PollRet /\ obs' = [op |-> "pollret"]
        \/ \E k \in 1..ntask : (RunPolled(k) \/ RunFired(k)) /\ obs' = [op |-> "run", k |-> k]
        \/ \E k \in 1..ntask : Ret(k) /\ obs' = [op |-> "ret", k |-> k]

MView == <<vars, ntask>>
MEmit == Emit => PrintT("@E" \o ToJson([s |-> <<TLCFP(MView), TLCFP(<<MView, 1>>)>>, t |-> <<TLCFP(MView'), TLCFP(<<MView', 1>>)>>, op |-> obs',
                                  i |-> (obs.op = "init")]))

---------------------------------------------------------------------------
\* Random walks in a larger scope (tlc -simulate): one candidate per kind of
\* operation, so that starts do not drown the rest.  obs accumulates the ops.
CONSTANT SimDepth
SInit == MInit
H(e) == obs' = [op |-> "hist", h |-> IF obs.op = "init" THEN <<e>> ELSE Append(obs.h, e)]
SNext ==
  \/ \E t \in {RandomElement(Timers)}, d \in {RandomElement(Delays)} :
       /\ Start(t, ntask + 1, d) /\ ntask' = ntask + 1
       /\ H([op |-> "start", t |-> t, k |-> ntask + 1, d |-> d])
  \/ /\ KeepTask
     /\ \/ \E t \in Timers : Depth("cb") < MaxDepth /\ Fire(t) /\ H([op |-> "fire", t |-> t])
        \/ \E t \in Timers : FireRet(t) /\ H([op |-> "fireret", t |-> t])
        \/ \E t \in {RandomElement(Timers)} : Destroy(t) /\ H([op |-> "destroy", t |-> t])
        \/ \E t \in Timers : Create(t) /\ H([op |-> "create", t |-> t])
        \/ \E d \in {RandomElement(Delays \ {0})} : Advance(d) /\ H([op |-> "adv", d |-> d])
        \/ Poll /\ H([op |-> "poll"])
        \/ PollRet /\ H([op |-> "pollret"])
        \/ \E k \in 1..ntask : (RunPolled(k) \/ RunFired(k)) /\ H([op |-> "run", k |-> k])
        \/ \E k \in 1..ntask : Ret(k) /\ H([op |-> "ret", k |-> k])
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
\* A task never runs twice and never after it was replaced or its timer died:
\* the number of runs of task k is at most one.  (Task ids are unique per start.)
=============================================================================
