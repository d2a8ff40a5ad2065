------------------------------ MODULE StrongMC ------------------------------
EXTENDS Strong, Json
CONSTANTS Emit, SimDepth, MaxVal
VARIABLES obs
mvars == <<sl, obs>>
MInit == SInit /\ obs = <<>>
View == sl
MoveOnly == Kind = "unique"
E(k, d, s, v) == [k |-> k, d |-> d, s |-> s, v |-> v]
Use(k) == ~(MoveOnly /\ k \in {"fromcopy", "copy", "assign", "convert"})
Ops == {e \in {E("default", d, 0, 0) : d \in Slots} \cup {E("destroy", d, 0, 0) : d \in Slots}
         \cup {E(k, d, 0, v) : k \in {"fromcopy", "frommove"}, d \in Slots, v \in 0..MaxVal}
         \cup {E(k, d, s, 0) : k \in {"copy", "move", "assign", "massign", "swap", "convert"}, d \in Slots, s \in Slots} : Use(e.k)}
MNext == \E e \in Ops : Op(e) /\ obs' = <<e>>
EmitEdge == Emit => PrintT("@E" \o ToJson([s |-> sl, t |-> sl', op |-> obs'[1], i |-> (\A x \in Slots : sl[x] = Gone)]))
\* The order is one: strict, transitive, and equality is its own kind of tie.
Laws == \A a, b, c \in Vals :
  /\ ~Lt(a, a) /\ (Lt(a, b) => ~Lt(b, a)) /\ ((Lt(a, b) /\ Lt(b, c)) => Lt(a, c))
  /\ (Eq(a, b) => Eq(b, a)) /\ (Ordered => (Lt(a, b) \/ Eq(a, b) \/ Lt(b, a)))
WNext ==
  /\ Len(obs) >= 0
  /\ \E k \in {RandomElement({"default", "destroy", "fromcopy", "frommove", "copy", "move", "assign", "massign", "swap", "convert"})} :
     \E d, s \in {RandomElement(Slots)} : \E v \in {RandomElement(0..MaxVal)} :
       LET S == {e \in {E(k, d, IF k \in {"default", "destroy", "fromcopy", "frommove"} THEN 0 ELSE s,
                          IF k \in {"fromcopy", "frommove"} THEN v ELSE 0)} : Use(e.k)}
       IN IF \E e \in S : ENABLED Op(e)
          THEN \E e \in S : Op(e) /\ obs' = Append(obs, e)
          ELSE UNCHANGED <<sl, obs>>
WEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs))
=============================================================================
