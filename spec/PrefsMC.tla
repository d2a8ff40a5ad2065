------------------------------- MODULE PrefsMC ------------------------------
EXTENDS Prefs, Json
CONSTANTS Emit, SimDepth, Tys, Few, Illegal
VARIABLES obs
\* A few values of each type, or all.
Vals(t) == IF Few THEN {CHOOSE x \in ValuesOf(t) : TRUE, CHOOSE x \in ValuesOf(t) : x # CHOOSE y \in ValuesOf(t) : TRUE}
           ELSE ValuesOf(t)
Op(k, p, t, v) == [k |-> k, p |-> p, t |-> t, v |-> v]
Ops == {Op("open", 0, t, "-") : t \in {"memory", "flat"}} \cup {Op("close", 0, "-", "-")}
   \cup {Op("get", p, t, "-") : p \in Paths, t \in Tys}
   \cup UNION {{Op(k, p, t, v) : k \in {"reg", "set"}, p \in Paths, v \in Vals(t)} : t \in Tys}
MInit == PInit /\ obs = [k |-> "init"]
Step(e) == IF MustAbort(e) THEN Illegal /\ dead' = TRUE /\ UNCHANGED <<open, store, reg, val>>
           ELSE (MayAbort(e) => Illegal) /\ Do(e)
MNext == ~dead /\ \E e \in Ops : Valid(e) /\ Step(e) /\ obs' = e
MEmit == Emit => PrintT("@E" \o ToJson([s |-> ToString(pvars), t |-> ToString(pvars'), op |-> obs',
                                        i |-> (obs.k = "init")]))
MView == pvars
H(e) == obs' = [k |-> "hist", h |-> IF obs.k = "init" THEN <<e>> ELSE Append(obs.h, e)]
ByKind == [k \in {e.k : e \in Ops} |-> {e \in Ops : e.k = k}]
Okay(e) == Valid(e) /\ (MayAbort(e) => Illegal /\ (RandomElement(1..60) = 1 \/ (~MustAbort(e) /\ RandomElement(1..3) = 1)))
           /\ (e.k = "close" => RandomElement(1..20) = 1)
SNext == \/ /\ ~dead
            /\ \E k \in {RandomElement(DOMAIN ByKind)} : \E e \in {RandomElement(ByKind[k])} :
                 IF Okay(e) THEN Step(e) /\ H(e)
                 ELSE UNCHANGED pvars /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
         \/ dead /\ UNCHANGED <<pvars, obs>>
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
=============================================================================
