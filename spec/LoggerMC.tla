------------------------------ MODULE LoggerMC ------------------------------
EXTENDS Logger, Json
CONSTANTS Emit, SimDepth, MsgN, FileN, LineSet, VSet
VARIABLES obs, dead
Msgs == <<"hello", "", "{}", "a { b } {{}} %s %n", "long", "nul", "line\nbreak", "utf">>
Files == <<"f.cc", "a/b{}c%d.cc", "", "long">>
Op(k, l, v, via, msg, file, line) == [k |-> k, l |-> l, v |-> v, via |-> via, msg |-> msg, file |-> file, line |-> line]
Ops == {Op(k, l, 0, "-", "-", "-", 1) : k \in {"make", "destroy", "global"}, l \in Loggers}
  \cup {Op("level", l, v, "-", "-", "-", 1) : l \in Loggers, v \in VSet \cup {6}}
  \cup {Op("log", 0, v, via, Msgs[m], Files[f], n) : v \in VSet \ {0}, via \in Vias, m \in 1..MsgN, f \in 1..FileN, n \in LineSet}
MInit == LInit /\ obs = [k |-> "init"] /\ dead = FALSE
\* A whole call at once.
Quiet == call' = NoCall
Step(e) == CASE e.k = "make" -> lv' = [lv EXCEPT ![e.l] = 0] /\ Quiet /\ UNCHANGED <<glob, dead>>
             [] e.k = "destroy" -> lv' = [lv EXCEPT ![e.l] = -1] /\ Quiet /\ UNCHANGED <<glob, dead>>
             [] e.k = "level" -> lv' = [lv EXCEPT ![e.l] = e.v] /\ Quiet /\ UNCHANGED <<glob, dead>>
             [] e.k = "global" -> glob' = e.l /\ Quiet /\ UNCHANGED <<lv, dead>>
             [] OTHER -> UNCHANGED lvars /\ dead' = (Emits(e) /\ e.v = 5)
MNext == ~dead /\ \E e \in Ops : Valid(e) /\ Step(e) /\ obs' = e
MEmit == Emit => PrintT("@E" \o ToJson([s |-> ToString(<<lv, glob, dead>>), t |-> ToString(<<lv', glob', dead'>>), op |-> obs',
                                        i |-> (obs.k = "init")]))
MView == <<lv, glob, dead>>
\* Step by step.
FNext == /\ UNCHANGED <<obs, dead>>
         /\ \/ \E e \in Ops : Valid(e) /\ Do(e)
            \/ Line(call.to, call.text) \/ Done
FView == lvars
H(e) == obs' = [k |-> "hist", h |-> IF obs.k = "init" THEN <<e>> ELSE Append(obs.h, e)]
ByKind == [k \in {e.k : e \in Ops} |-> {e \in Ops : e.k = k}]
Okay(e) == /\ Valid(e)
           /\ (e.k = "log" /\ e.v = 5 /\ Emits(e) => RandomElement(1..20) = 1)
SNext == \/ /\ ~dead
            /\ \E k \in {RandomElement(DOMAIN ByKind \cup {"again"})} :
               \E e \in {RandomElement(ByKind[IF k = "again" THEN "log" ELSE k])} :
                 IF Okay(e) THEN Step(e) /\ H(e)
                 ELSE UNCHANGED <<lvars, dead>> /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
         \/ dead /\ UNCHANGED <<lvars, dead, obs>>
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
=============================================================================
