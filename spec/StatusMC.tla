------------------------------ MODULE StatusMC ------------------------------
(* Every call in every state of a few slots; edges are printed for replay.      *)
(* Values are numbered when scripts are made.                                   *)
EXTENDS Status, Json
CONSTANTS Kinds, Emit, SimDepth, Illegal
VARIABLES obs
Ops == [k : {"ok", "err", "q", "ig", "del", "get", "rd", "asv", "ase"}, s : Slots, f : {0}, t : {"-"}, v : {0}]
       \cup [k : {"val", "verr"}, s : Slots, f : {0}, t : Kinds, v : {0}]
       \cup [k : {"mv"}, s : Slots, f : Slots, t : Kinds \cup {"st"}, v : {0}]
       \cup [k : {"as", "take", "takeas"}, s : Slots, f : Slots, t : {"-"}, v : {0}]
MInit == SInit /\ obs = [k |-> "init"]
Apply(e) == IF MustAbort(e) THEN Illegal /\ dead' = TRUE /\ UNCHANGED sl ELSE Do(e) /\ UNCHANGED dead
MNext == ~dead /\ \E e \in Ops : Valid(e) /\ Apply(e) /\ obs' = e
MView == <<sl, dead>>
MEmit == Emit => PrintT("@E" \o ToJson([s |-> ToString(MView), t |-> ToString(MView'), op |-> obs',
                                        i |-> (obs.k = "init")]))
\* Random walks.
H(e) == obs' = [k |-> "hist", h |-> IF obs.k = "init" THEN <<e>> ELSE Append(obs.h, e)]
\* Candidates are drawn until one is a call; a kind first, so that the many
\* moves do not drown the rest.
ByKind == [k \in {e.k : e \in Ops} |-> {e \in Ops : e.k = k}]
SNext == /\ ~dead
         /\ \E k \in {RandomElement(DOMAIN ByKind)} :
              LET c == {e \in ByKind[k] : Valid(e) /\ (MustAbort(e) => Illegal /\ RandomElement(1..25) = 1)}
              IN IF c # {} THEN \E e \in {RandomElement(c)} : Apply(e) /\ H(e)
                 ELSE UNCHANGED <<sl, dead>> /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
SEmit == (TLCGet("level") = SimDepth \/ dead) => PrintT("@S" \o ToJson(obs.h))
TypeOK == \A s \in Slots : sl[s].kind \in Kinds \cup {"none", "st"} /\ sl[s].out \in {"ok", "err", "gone"}
=============================================================================
