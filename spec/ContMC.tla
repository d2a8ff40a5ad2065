------------------------------- MODULE ContMC -------------------------------
(* All small containers, and what the algorithms may make of them; random long     *)
(* histories.  The container that an algorithm makes is any one allowed.           *)
EXTENDS Cont, Json
CONSTANTS MaxLen, MaxKey, Emit, SimDepth
VARIABLES obs, tag
mvars == <<c, obs, tag>>
MInit == c = <<>> /\ obs = <<>> /\ tag = 0
Cmps == {"none", "less", "greater", "mod"}
E(k, cmp, p, key) == [k |-> k, cmp |-> cmp, p |-> p, key |-> key, tag |-> IF k = "add" THEN tag + 1 ELSE 0]
HeapBy(cmp) == Heap(IF cmp = "none" THEN "less" ELSE cmp, c)
\* Arrangements of the container.
Perms == {[x \in DOMAIN c |-> c[pi[x]]] : pi \in Permutations(DOMAIN c)}
Possible(e) ==
  CASE e.k = "add" -> {Append(c, <<e.key, e.tag>>)}
    [] e.k = "pop" -> {Front(c)}
    [] e.k \in {"find", "issorted"} -> {c}
    [] e.k = "raise" -> {[x \in DOMAIN c |-> <<Key(c[x]) + 1, c[x][2]>>]}
    [] OTHER -> {q \in Perms : Allowed(e, q, 1)}
Calls(key, p) ==
  {E(k, cmp, "", 0) : k \in {"sort", "stable"}, cmp \in Cmps} \cup {E("issorted", cmp, "", 0) : cmp \in Cmps \ {"none"}}
  \cup {E("find", "", p, key), E("raise", "", "", 0), E("shuffle", "", "", 0)}
  \cup (IF Len(c) < MaxLen /\ tag < MaxLen THEN {E("add", "", "", key)} ELSE {})
  \cup (IF c # <<>> THEN {E("pop", "", "", 0)} ELSE {})
  \cup (IF c # <<>> THEN {E("popheap", cmp, "", 0) : cmp \in {x \in Cmps \ {"none"} : HeapBy(x)}}
                         \cup {E("pushheap", cmp, "", 0) : cmp \in {x \in Cmps \ {"none"} : Heap(x, Front(c))}} ELSE {})
Bounded == \A x \in DOMAIN c' : Key(c'[x]) <= MaxKey
MNext == \E key \in 0..MaxKey, p \in {"equal", "above"} : \E e \in Calls(key, p) :
           /\ Possible(e) # {}
           /\ \E q \in Possible(e) : c' = q
           /\ Bounded /\ obs' = <<>>
           /\ tag' = IF e.k = "add" THEN tag + 1 ELSE tag
\* Every call has an outcome; the stable one is determined; a heap's first is the last of the sorted.
Sane == \A e \in Calls(0, "equal") :
  /\ Possible(e) # {}
  /\ (e.k = "stable" => Cardinality(Possible(e)) = 1)
  /\ (e.k = "popheap" => \A q \in Possible(e) : \A x \in DOMAIN c : ~Before(e.cmp, Last(q), c[x]))
\* All contents, as scripts that end with one call.
Adds == [x \in DOMAIN c |-> [k |-> "add", cmp |-> "", p |-> "", key |-> Key(c[x]), tag |-> x]]
MEmit == (Emit /\ \A x \in DOMAIN c : c[x][2] = x) =>
  \A e \in UNION {Calls(key, p) : key \in 0..MaxKey, p \in {"equal", "above"}} :
    e.k # "add" => PrintT("@S" \o ToJson(Append(Adds, e)))
\* Random histories over the calls alone: the container is followed by its keys' number.
WNext == /\ Len(obs) >= 0
         /\ \E r \in {RandomElement(1..12)} : \E key \in {RandomElement(0..MaxKey)} : \E p \in {RandomElement({"equal", "above"})} :
            \E cmp \in {RandomElement(Cmps)} :
            LET k == CASE r <= 4 -> "add" [] r = 5 -> "sort" [] r = 6 -> "stable" [] r = 7 -> "shuffle"
                       [] r = 8 -> "find" [] r = 9 -> "issorted" [] r = 10 -> "raise" [] r = 11 -> "heapup" [] OTHER -> "heapdown"
                e == E(k, IF cmp = "none" /\ k \notin {"sort", "stable"} THEN "less" ELSE cmp, p, key)
            IN /\ obs' = Append(obs, e) /\ tag' = IF k = "add" THEN tag + 1 ELSE tag
               /\ UNCHANGED c
WEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs))
=============================================================================
