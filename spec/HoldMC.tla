------------------------------- MODULE HoldMC -------------------------------
EXTENDS Hold, Json
CONSTANTS MaxK, MaxDepth, Len0
VARIABLES obs, used
\* The system by itself.
MInit == HInit /\ obs = <<>> /\ used = 0
Keep == UNCHANGED <<obs, used>>
MNext == \/ /\ used < MaxK /\ used' = used + 1 /\ UNCHANGED obs
            /\ (\E n \in 1..2 : Post(used + 1, n)) \/ \E t \in Timers : Start(t, used + 1)
         \/ /\ Keep
            /\ \/ Done \/ Poll \/ Polled \/ Kill \/ Killed \/ NewRunner
               \/ \E t \in Timers : Destroy(t) \/ Create(t) \/ (Len(stack) < MaxDepth /\ Fire(t)) \/ Fired(t)
               \/ \E k \in DOMAIN cb : Run(k) \/ Ret(k) \/ Free(k)
\* From everywhere everything can still be released: no call gets stuck.
Stuck == stack # <<>> => ENABLED MNext

\* Scripts: what the client calls, in order; "ret" ends the running callable.
Op(op, t, n, d, h) == [op |-> op, t |-> t, n |-> n, d |-> d, h |-> h]
Small == {Op("post", 0, 1, 0, 0), Op("post", 0, 2, 0, 1), Op("post", 0, 1, 1, 0), Op("adv", 0, 0, 1, 0),
          Op("poll", 0, 0, 0, 0), Op("ret", 0, 0, 0, 0), Op("kill", 0, 0, 0, 0)}
         \cup {Op("start", 1, 0, 0, 0), Op("start", 1, 0, 1, 1), Op("fire", 1, 0, 0, 0), Op("destroy", 1, 0, 0, 0)}
ENext == Len(obs) < Len0 /\ \E o \in Small : obs' = Append(obs, o) /\ UNCHANGED <<hvars, used>>
EEmit == Len(obs) = Len0 => PrintT("@S" \o ToJson(obs))
Kinds == <<"post", "post", "post", "start", "start", "start", "fire", "destroy", "create", "adv", "poll", "poll", "ret", "ret", "ret",
           "kill">>
RNext == /\ Len(obs) >= 0
         /\ \E k \in {RandomElement(1..Len(Kinds))} : \E t \in {RandomElement(Timers)} : \E n \in {RandomElement({1, 1, 2, 3})} :
              \E d \in {RandomElement({0, 0, 1, 3})} : \E h \in {RandomElement(0..3)} :
                obs' = Append(obs, Op(Kinds[k], t, n, d, IF h = 0 THEN 1 ELSE 0))
         /\ UNCHANGED <<hvars, used>>
REmit == TLCGet("level") = Len0 => PrintT("@S" \o ToJson(obs))
=============================================================================
