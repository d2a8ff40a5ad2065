------------------------------- MODULE NullMC -------------------------------
EXTENDS Null, Json
CONSTANTS Emit, MaxId, SimDepth, Ws, Pcs, Tys, Illegal
VARIABLES obs
Op(k, s, f, w, p, t, src, pt, o, how) ==
  [k : k, s : s, f : f, w : w, p : p, t : t, src : src, pt : pt, o : o, how : how]
N == {"-"}
Pts == {"D", "B"} \cap Tys
Src(k, w, p, t) ==
  Op(k, Slots, {0}, w, p, t, {"null"}, Pts, {0}, N) \cup Op(k, Slots, {0}, w, p, t, {"nullptr", "default"}, N, {0}, N)
  \cup Op(k, Slots, {0}, w, p, t, {"ptr"}, Pts, {0} \cup RawObjs, N)
  \cup Op(k, Slots, Slots, w, p, t, {"copy", "move"}, N, {0}, N)
Ops == Src({"ctor"}, Ws, Pcs, Tys) \cup Src({"set"}, N, N, N)
  \cup Op({"isnull"}, Slots, {0}, N, N, N, N, N, {0}, {"eq", "req", "ne", "rne"})
  \cup Op({"cmp"}, Slots, Slots, N, N, N, N, N, {0}, {"eq", "ne", "lt"})
  \cup Op({"rawcmp"}, Slots, {0}, N, N, N, N, Pts, {0, 1, 2}, {"eq", "req", "ne", "rne"})
  \cup Op({"get", "hash", "take", "del"}, Slots, {0}, N, N, N, N, N, {0}, N)
  \cup Op({"deref"}, Slots, {0}, N, N, N, N, N, {0}, {"star", "arrow", "at0", "at1"})
MInit == NInit /\ obs = [k |-> "init"]
Step(e) == IF MustAbort(e) THEN Illegal /\ dead' = TRUE /\ UNCHANGED <<sl, nid>>
           ELSE IF MayAbort(e) THEN Illegal /\ Do(e) ELSE Do(e)
MNext == ~dead /\ \E e \in Ops : Valid(e) /\ nid < MaxId + 1 /\ Step(e) /\ nid' <= MaxId /\ obs' = e
MEmit == Emit => PrintT("@E" \o ToJson([s |-> ToString(nvars), t |-> ToString(nvars'), op |-> obs',
                                        i |-> (obs.k = "init")]))
MView == nvars
H(e) == obs' = [k |-> "hist", h |-> IF obs.k = "init" THEN <<e>> ELSE Append(obs.h, e)]
ByKind == [k \in {e.k : e \in Ops} |-> {e \in Ops : e.k = k}]
\* Calls that end the run come rarely.
Okay(e) == Valid(e) /\ (MayAbort(e) => Illegal /\ (RandomElement(1..25) = 1 \/ (~MustAbort(e) /\ RandomElement(1..3) = 1)))
           /\ (e.k \in {"del", "take"} => RandomElement(1..3) = 1)
SNext == /\ ~dead
         /\ \E k \in {RandomElement(DOMAIN ByKind)} : \E e \in {RandomElement(ByKind[k])} :
              IF Okay(e) THEN Step(e) /\ H(e)
              ELSE UNCHANGED nvars /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
\* After the call that ends the run nothing happens.
SStop == dead /\ UNCHANGED <<nvars, obs>>
SAll == SNext \/ SStop
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
=============================================================================
