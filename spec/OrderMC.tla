------------------------------- MODULE OrderMC ------------------------------
EXTENDS Order, Json
CONSTANTS SimDepth, Small
VARIABLES obs
MInit == OInit /\ obs = <<>>
View == ovars
E(k, a, x, y, n) == [k |-> k, a |-> a, x |-> x, y |-> y, n |-> n]
Free == {a \in Agents : st[a] = "none"}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
\* All small programs, for the invariants.
MNext ==
  \E a \in Agents :
    \/ \E e \in {E("end", a, 0, 0, 0), E("return", a, 0, 0, 0), E("released", a, 0, 0, 0), E("begin", a, 0, 0, 0), E("poll", a, 0, 0, 0)} : Op(e) /\ UNCHANGED obs
    \/ \E v \in Vars : (Write(a, v, 1) \/ Read(a, v)) /\ Cardinality(acc[v]) < 3 /\ UNCHANGED obs
    \/ \E k \in Bars : (CountDown(a, k) \/ CountDownAndWait(a, k) \/ Wait(a, k)) /\ UNCHANGED obs
    \/ Free # {} /\ Spawn(a, Least(Free)) /\ UNCHANGED obs
    \/ Free # {} /\ \E p \in Small : (Post(a, Least(Free), p, FALSE) \/ Apply(a, {Least(Free)}, p)) /\ UNCHANGED obs
    \/ \E b \in Agents : JoinThread(a, b) /\ UNCHANGED obs
    \/ \E p \in Small : Destroy(a, p) /\ UNCHANGED obs
\* Random programs.
Pick(S) == RandomElement(S)
Try(e) == IF ENABLED Op(e) THEN Op(e) /\ obs' = Append(obs, e) ELSE UNCHANGED <<ovars, obs>>
Active == {a \in Agents : st[a] \in {"run", "block", "barrier"} \/ (st[a] = "posted" /\ home[a] # 5)}
Fresh(v) == {}
WNext ==
  /\ Len(obs) >= 0
  /\ IF Len(obs) = 0 THEN Try(E("spawn", 1, 2, 0, 0)) ELSE
     \E a \in {Pick(Active)}, r \in {Pick(1..30)}, v \in {Pick(Vars)}, k \in {Pick(Bars)}, p \in {Pick(Runners)}, n \in {Pick(1..3)}, b \in {Pick(Agents)} :
       CASE st[a] = "block" -> Try(E("return", a, 0, 0, 0))
         [] st[a] = "barrier" -> Try(E("released", a, 0, 0, 0))
         [] st[a] = "posted" -> Try(E("begin", a, 0, 0, 0))
         [] r <= 5 -> Try(E("read", a, v, 0, 0))
         [] r <= 9 -> Try(E("write", a, v, Len(obs) + 1, 0))
         [] r <= 11 -> Try(E("add", a, v, 0, 0))
         [] r <= 13 -> IF Free # {} THEN Try(E("post", a, Least(Free), p, 0)) ELSE Try(E("join", a, b, 0, 0))
         [] r = 14 -> IF Free # {} THEN Try(E("later", a, Least(Free), p, 0)) ELSE Try(E("join", a, b, 0, 0))
         [] r = 15 -> IF Free # {} THEN Try(E("spawn", a, Least(Free), 0, 0)) ELSE Try(E("join", a, b, 0, 0))
         [] r \in {16, 17} -> IF Cardinality(Free) >= n /\ Least(Free) + n - 1 \in Agents THEN Try(E("apply", a, Least(Free), p, n)) ELSE Try(E("use", a, n, 0, 0))
         [] r \in {18, 19} -> Try(E("down", a, k, 0, 0))
         [] r = 20 -> Try(E("downwait", a, k, 0, 0))
         [] r \in {21, 22} -> Try(E("wait", a, k, 0, 0))
         [] r \in {23, 24} -> IF Thread(a) /\ Pick(1..3) # 1 THEN UNCHANGED <<ovars, obs>> ELSE Try(E("end", a, 0, 0, 0))
         [] r = 25 -> Try(E("join", a, b, 0, 0))
         [] r \in {26, 27} -> Try(E("poll", Poller, 0, 0, 0))
         [] r = 28 -> IF Pick(1..2) = 1 THEN Try(E("destroy", 1, p, 0, 0)) ELSE UNCHANGED <<ovars, obs>>
         [] OTHER -> Try(E("use", a, Pick(1..5), 0, 0))
WEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs))
=============================================================================
