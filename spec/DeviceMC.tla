------------------------------- MODULE DeviceMC ------------------------------
EXTENDS Device, Json
CONSTANTS Devs, Emit, SimDepth
VARIABLES obs
MInit == DInit /\ obs = <<>>
View == <<life, dev>>
Own == \A t, u \in Threads : (t # u /\ dev[t] # 0) => dev[t] # dev[u]
E(k, ts) == [k |-> k, t |-> ts]
Free(t) == CHOOSE d \in Devs : Fits(t, d, dev)
Do(e) == CASE e.k = "start" -> Start(e.t[1])
           [] e.k = "ask" -> life[e.t[1]] = "live" /\ Ask(e.t[1], Free(e.t[1]))
           [] e.k = "exit" -> Exit(e.t[1])
           [] e.k = "together" -> /\ \A t \in Threads : (\E x \in DOMAIN e.t : e.t[x] = t) => life[t] = "live"
                                  /\ LET used == {dev[t] : t \in Threads}
                                         new == {x \in DOMAIN e.t : dev[e.t[x]] = 0}
                                         nth(x) == Cardinality({y \in new : y <= x})
                                         free == CHOOSE f \in [1..Cardinality(Devs \ used) -> Devs \ used] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]
                                         ds == [x \in DOMAIN e.t |-> IF x \in new THEN free[nth(x)] ELSE dev[e.t[x]]]
                                     IN AskAll(e.t, ds, dev)
           [] OTHER -> FALSE
Ordered(S) == SelectSeq([x \in 1..Cardinality(Threads) |-> x], LAMBDA x : x \in S)
Ops == {E(k, <<t>>) : k \in {"start", "ask", "exit"}, t \in Threads}
         \cup {E("together", Ordered(S)) : S \in {x \in SUBSET Threads : Cardinality(x) >= 2}}
MNext == \E e \in Ops : Do(e) /\ obs' = <<e>>
EmitEdge == Emit => PrintT("@E" \o ToJson([s |-> <<life, dev>>, t |-> <<life', dev'>>, op |-> obs'[1], i |-> TLCGet("level") = 1]))
\* Random ones: devices need not be followed.
WNext == /\ Len(obs) >= 0
         /\ \E r \in {RandomElement(1..9)} : \E t \in {RandomElement(Threads)} :
            \E ts \in {SelectSeq([x \in 1..Cardinality(Threads) |-> x], LAMBDA x : life[x] = "live" /\ RandomElement(1..2) = 1)} :
              CASE r = 9 /\ Len(ts) >= 2 -> obs' = Append(obs, E("together", ts)) /\ UNCHANGED dvars
                [] life[t] = "new" -> Start(t) /\ obs' = Append(obs, E("start", <<t>>))
                [] life[t] = "live" /\ r = 8 /\ t # 1 -> Exit(t) /\ obs' = Append(obs, E("exit", <<t>>))
                [] life[t] = "live" /\ (r < 8 \/ t = 1) -> obs' = Append(obs, E("ask", <<t>>)) /\ UNCHANGED dvars
                [] OTHER -> UNCHANGED <<life, dev, obs>>
WEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs))
=============================================================================
