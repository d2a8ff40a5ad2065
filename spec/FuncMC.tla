------------------------------- MODULE FuncMC -------------------------------
EXTENDS Func, Json
CONSTANTS MaxIds, Emit, SimDepth
VARIABLES obs
mvars == <<v, cur, obs>>
MInit == FInit /\ obs = <<>>
Inv == Unique
Fresh == CHOOSE k \in 1..MaxIds : k \notin Held
View == <<v, cur>>
Steps(op) ==
  \/ op.k = "fill" /\ Fill(op.x, op.id)
  \/ op.k = "take" /\ Take(op.x, op.y)
  \/ op.k = "drop" /\ Drop(op.x)
  \/ op.k = "call" /\ Call(op.x)
  \* The whole call, with what the body does.
  \/ /\ op.k = "fire" /\ v[op.x].id # 0
     /\ LET w == [v EXCEPT ![op.x] = None]
        IN v' = (CASE op.do = "nothing" -> w
                  [] op.do = "fill" -> [w EXCEPT ![op.y] = F(op.id)]
                  [] op.do = "take" -> [z \in Vars |-> IF z = op.y THEN w[op.x] ELSE IF z = op.x THEN None ELSE w[z]])
     /\ UNCHANGED cur
Op(k, x, y, id, do) == [k |-> k, x |-> x, y |-> y, id |-> id, do |-> do, big |-> id % 2 = 0]
Ops == {Op("fill", x, 0, Fresh, "") : x \in Vars} \cup {Op("take", x, y, 0, "") : x, y \in Vars}
  \cup {Op("drop", x, 0, 0, "") : x \in Vars} \cup {Op("call", x, 0, 0, "") : x \in Vars}
  \cup {Op("fire", x, y, Fresh, "fill") : x, y \in Vars} \cup {Op("fire", x, 0, 0, "nothing") : x \in Vars}
  \cup {Op("fire", x, y, 0, "take") : x, y \in Vars}
MNext == \E op \in Ops : op.id \in 0..MaxIds /\ Steps(op) /\ \A x \in Vars : v'[x].n <= 1 /\ obs' = <<op>>
EmitEdge == Emit => PrintT("@E" \o ToJson([s |-> v, t |-> v', op |-> obs'[1], i |-> (\A x \in Vars : v[x].id = 0)]))
WNext == /\ Len(obs) >= 0
         /\ \E k \in {RandomElement({"fill", "take", "take", "call", "fire", "drop"})} :
            \E x \in {RandomElement(Vars)} : \E y \in {RandomElement(Vars)} :
            \E do \in {RandomElement({"fill", "take", "nothing"})} :
            LET kk == IF k \in {"call", "fire"} /\ v[x].id = 0 THEN "fill" ELSE k
                d == IF kk = "fire" THEN do ELSE ""
                op == Op(kk, x, IF kk = "take" \/ d \in {"fill", "take"} THEN y ELSE 0,
                         IF kk = "fill" \/ d = "fill" THEN Fresh ELSE 0, d)
            IN Steps(op) /\ obs' = Append(obs, op)
WEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs))
=============================================================================
