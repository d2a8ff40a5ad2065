------------------------------- MODULE WeakMC -------------------------------
EXTENDS Weak, Json
CONSTANTS Emit, MaxInc, SimDepth, Tys
VARIABLES obs
E0 == [k |-> "-", a |-> 0, p |-> 0, f |-> 0, t |-> "-", how |-> "-"]
Ops == [k : {"make"}, a : Addrs, p : {0}, f : {0}, t : {"B", "D", "M"} \cap Tys, how : {"-"}]
   \cup [k : {"kill"}, a : Addrs, p : {0}, f : {0}, t : {"-"}, how : {"-"}]
   \cup [k : {"get"}, a : Addrs, p : Ptrs, f : {0}, t : Tys, how : {"-"}]
   \cup [k : {"null"}, a : {0}, p : Ptrs, f : {0}, t : Tys, how : {"default", "nullptr"}]
   \cup [k : {"reset", "drop"}, a : {0}, p : Ptrs, f : {0}, t : {"-"}, how : {"-"}]
   \cup [k : {"new"}, a : {0}, p : Ptrs, f : Ptrs, t : Tys, how : {"copy", "move"}]
   \cup [k : {"set"}, a : {0}, p : Ptrs, f : Ptrs, t : {"-"}, how : {"copy", "move"}]
MInit == WInit /\ obs = [k |-> "init"]
MNext == \E e \in Ops : Valid(e) /\ (e.k = "make" => inc < MaxInc) /\ Do(e) /\ obs' = e
MEmit == Emit => PrintT("@E" \o ToJson([s |-> ToString(wvars), t |-> ToString(wvars'), op |-> obs',
                                        i |-> (obs.k = "init")]))
MView == wvars
H(e) == obs' = [k |-> "hist", h |-> IF obs.k = "init" THEN <<e>> ELSE Append(obs.h, e)]
\* Candidates are drawn until one is a call; a kind first, so that the many
\* moves do not drown the rest.
ByKind == [k \in {e.k : e \in Ops} |-> {e \in Ops : e.k = k}]
Crowds == [k : {"crowd"}, a : {260}, p : Ptrs, f : {0}, t : {"-"}, how : {"-"}]
Huge == [k : {"crowd"}, a : {66000}, p : Ptrs, f : {0}, t : {"-"}, how : {"-"}]
Disperse == [E0 EXCEPT !.k = "disperse"]
CrowdNext ==
  \E e \in {RandomElement(Crowds)} : \E h \in {RandomElement(Huge)} : \E n \in {RandomElement(1..40)} :
    \E c \in {IF Len(cr) = 3 \/ n < 8 THEN Disperse ELSE IF n = 40 THEN h ELSE e} :
      IF Valid(c) THEN Do(c) /\ H(c) ELSE UNCHANGED wvars /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
CallNext ==
         /\ inc >= 0
         /\ \E k \in {RandomElement(DOMAIN ByKind)} : \E e \in {RandomElement(ByKind[k])} :
              IF Valid(e) /\ (k \in {"kill", "drop", "reset", "null"} => RandomElement(1..9) = 1) THEN Do(e) /\ H(e)
              ELSE UNCHANGED wvars /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
SNext == IF inc >= 0 /\ RandomElement(1..60) = 1 THEN CrowdNext ELSE CallNext
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
=============================================================================
