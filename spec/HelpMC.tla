-------------------------------- MODULE HelpMC -------------------------------
EXTENDS Help, Json
CONSTANTS Emit, SimDepth, MaxMade, Nulls, Area
VARIABLES obs
mvars == <<fn, val, raw, own, made, obs>>
MInit == HInit /\ obs = <<>>
View == <<fn, val, raw, own>>
E(k, x, y) == [k |-> k, x |-> x, y |-> y]
FnOps == {E(k, x, 0) : k \in {"null", "nothing", "real", "call"}, x \in Vars} \cup {E("copyfn", x, y) : x, y \in Vars}
ValOps == {E("clone", x, y) : x, y \in Vars} \cup {E("grow", x, d) : x \in Vars, d \in 1..2} \cup {E("clear", x, 0) : x \in Vars}
ObjOps == {E("new", x, 0) : x \in Vars} \cup {E("wrap", x, y) : x, y \in Vars} \cup {E("drop", x, 0) : x \in Vars}
Ops == CASE Area = "fn" -> FnOps [] Area = "val" -> ValOps [] Area = "obj" -> ObjOps [] OTHER -> FnOps \cup ValOps \cup ObjOps
\* One owner at most.
OneOwner == \A x, y \in Vars : /\ (own[x] # 0 /\ own[x] = own[y] => x = y) /\ (raw[x] # 0 => raw[x] # own[y])
                               /\ (raw[x] # 0 /\ raw[x] = raw[y] => x = y)
MNext == \E e \in Ops : /\ Do(e) /\ obs' = <<e>> /\ made' <= MaxMade /\ \A x \in Vars : Len(val'[x]) <= 2
EmitEdge == Emit => PrintT("@E" \o ToJson([s |-> <<fn, val, raw, own, made>>, t |-> <<fn', val', raw', own', made'>>, op |-> obs'[1],
                                           i |-> TLCGet("level") = 1]))
WNext ==
  /\ Len(obs) >= 0
  /\ \E e \in {RandomElement(IF Nulls THEN Ops ELSE {o \in Ops : ~Stops(o)})} :
       IF ENABLED Do(e) THEN Do(e) /\ obs' = Append(obs, e)
       ELSE IF Stops(e) /\ RandomElement(1..4) = 1 THEN obs' = Append(obs, e) /\ UNCHANGED hvars
       ELSE UNCHANGED mvars
WEmit == (obs # <<>> /\ (TLCGet("level") = SimDepth)) => PrintT("@S" \o ToJson(obs))
=============================================================================
