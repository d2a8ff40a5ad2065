------------------------------- MODULE ValueMC ------------------------------
(* All small values: the laws that users rely on are checked on the model,    *)
(* and every (value, operation) pair is printed for replay on the real code.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Part, Big, Emit
Rk(n) == n
Dig(n) == IF n = 1 THEN "1" ELSE ""
V == INSTANCE Value WITH Rank <- Rk, AsInt64 <- Dig, AsInt <- Dig

K == {1, 2}
Atoms == {V!Null, <<"bool", 0, <<>>, <<>>>>, <<"num", 1, <<>>, <<>>>>, <<"str", 1, <<>>, <<>>>>}
MoreAtoms == Atoms \cup {<<"num", 2, <<>>, <<>>>>, <<"str", 2, <<>>, <<>>>>}
Over(S, n) == {V!EmptyArr, V!EmptyObj}
           \cup {<<"arr", 0, <<>>, <<x>>>> : x \in S}
           \cup {<<"obj", 0, <<k>>, <<x>>>> : k \in K, x \in S}
           \cup (IF n < 2 THEN {} ELSE
                 {<<"obj", 0, <<1, 2>>, <<x, y>>>> : x \in S, y \in S} \cup
                 {<<"arr", 0, <<>>, <<x, y>>>> : x \in S, y \in S})
One == Atoms \cup Over(Atoms, 2)
\* Depth 2, few atoms at the bottom.
Small == {V!Null, <<"num", 1, <<>>, <<>>>>}
Mid == Small \cup Over(Small, 1)
Two == Mid \cup Over(Mid, IF Big THEN 2 ELSE 1) \cup Over({V!EmptyObj, V!Null}, 2)
Objs == {v \in Two : V!IsObj(v)}
Paths == {<<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 2, 1>>}
New == {V!Null, V!EmptyObj, <<"num", 1, <<>>, <<>>>>, <<"obj", 0, <<1>>, <<V!Null>>>>}

VARIABLES v, w, hist
MView == <<v, w>>
P0(s) == [s |-> s, p |-> <<>>]
\* Places inside a value, at most two steps deep.
Steps(x) == IF V!IsObj(x) THEN {<<"k", k>> : k \in {V!Keys(x)[y] : y \in DOMAIN V!Keys(x)}}
            ELSE {<<"i", y>> : y \in DOMAIN V!Kids(x)}
Places(x) == {<<>>} \cup {<<s>> : s \in Steps(x)}
             \cup UNION {{<<s, t>> : t \in Steps(V!At(x, <<s>>))} : s \in Steps(x)}

Universe == CASE Part = "v01" -> Objs [] Part = "v02" -> Two [] Part = "v03" -> (IF Big THEN Two \cup One ELSE One) [] OTHER -> One
Other == CASE Part = "v01" -> {V!Null} [] Part = "v02" -> {<<"bool", 1, <<>>, <<>>>>, <<"arr", 0, <<>>, <<V!Null>>>>}
           [] Part = "v03" -> (IF Big THEN One ELSE Mid \cup {<<"num", 2, <<>>, <<>>>>}) [] OTHER -> {V!Null}
MInit == v \in Universe /\ w \in Other /\ hist = <<>>

News == <<[op |-> "new", s |-> 1, v |-> v]>>
News2 == News \o <<[op |-> "new", s |-> 2, v |-> w]>>
Do(h) == hist' = h /\ UNCHANGED <<v, w>>
MNext ==
  /\ hist = <<>>
  /\ CASE Part = "v01" ->
            \/ \E k \in K : Do(News \o <<[op |-> "remkey", at |-> P0(1), k |-> k],
                                        [op |-> "findkey", at |-> P0(1), k |-> 1],
                                        [op |-> "findkey", at |-> P0(1), k |-> 2]>>)
            \/ \E k \in K, x \in New : Do(News \o <<[op |-> "setkey", at |-> P0(1), k |-> k, v |-> x],
                                                  [op |-> "findkey", at |-> P0(1), k |-> k],
                                                  [op |-> "findkey", at |-> P0(1), k |-> 3 - k]>>)
            \/ \E p \in Paths, x \in New : Do(News \o <<[op |-> "setpath", at |-> P0(1), path |-> p, v |-> x],
                                                      [op |-> "findpath", at |-> P0(1), path |-> p],
                                                      [op |-> "findpath", at |-> P0(1), path |-> Append(p, 1)]>>)
            \/ \E p \in Paths : Do(News \o <<[op |-> "findpath", at |-> P0(1), path |-> p],
                                            [op |-> "setfound", at |-> P0(1), path |-> p, v |-> V!Null]>>)
            \/ Do(News \o [x \in 1..12 |-> [op |-> "findtype", at |-> P0(1), k |-> 1 + (x % 2),
                    t |-> <<"null", "bool", "num", "str", "arr", "obj">>[1 + (x - 1) \div 2]]])
       [] Part = "v02" ->
            \/ \E a \in Places(v), b \in Places(v) :
                 /\ ~V!Prefix(b, a)
                 /\ \/ Do(News \o <<[op |-> "assign", to |-> [s |-> 1, p |-> a], from |-> [s |-> 1, p |-> b]]>>)
                    \/ ~V!Prefix(a, b) /\ Do(News \o <<[op |-> "swap", to |-> [s |-> 1, p |-> a], from |-> [s |-> 1, p |-> b]]>>)
            \/ \E a \in Places(v), b \in Places(w) :
                 \/ Do(News2 \o <<[op |-> "assign", to |-> [s |-> 1, p |-> a], from |-> [s |-> 2, p |-> b]]>>)
                 \/ Do(News2 \o <<[op |-> "assign", to |-> [s |-> 2, p |-> b], from |-> [s |-> 1, p |-> a]]>>)
                 \/ Do(News2 \o <<[op |-> "swap", to |-> [s |-> 1, p |-> a], from |-> [s |-> 2, p |-> b]]>>)
            \/ \E a \in Places(v) :
                 \/ Do(News \o <<[op |-> "move", s |-> 1, from |-> [s |-> 1, p |-> a]]>>)
                 \/ Do(News \o <<[op |-> "move", s |-> 2, from |-> [s |-> 1, p |-> a]]>>)
                 \/ Do(News \o <<[op |-> "clone", s |-> 2, from |-> [s |-> 1, p |-> a]],
                                 [op |-> "assign", to |-> [s |-> 1, p |-> a], from |-> [s |-> 2, p |-> <<>>]],
                                 [op |-> "clone", s |-> 2, from |-> [s |-> 1, p |-> <<>>]],
                                 [op |-> "new", s |-> 1, v |-> V!Null]>>)
       [] Part = "v03" -> Do(<<[op |-> "cmplit", v |-> v, w |-> w], [op |-> "cmplit", v |-> w, w |-> v]>>)
       [] OTHER -> Do(News \o <<[op |-> "preds", at |-> P0(1)]>>)

\* ---- laws --------------------------------------------------------------
Unrelated(p, q) == ~V!Prefix(p, q) /\ ~V!Prefix(q, p)
PathLaws ==
  \A p \in Paths, x \in New :
    LET t == V!SetP(v, p, x) IN
    /\ V!FindP(t, p) = <<x>>
    /\ \A q \in Paths : Unrelated(p, q) =>
         \* what was elsewhere stays, unless a non-object on the way was replaced
         V!FindP(t, q) = V!FindP(v, q)
    /\ \A x1, x2 \in 1..Len(V!Keys(t)) : x1 < x2 => V!Keys(t)[x1] < V!Keys(t)[x2]
    /\ \A k \in K : LET u == V!RemK(t, k) IN
         /\ ~V!HasKey(u, k)
         /\ \A j \in K \ {k} : V!FindK(u, j) = V!FindK(t, j)
OrderLaws ==
  /\ V!Cmp(v, w) = -V!Cmp(w, v)
  /\ (V!Cmp(v, w) = 0) = (v = w)
  /\ \A x \in Other : (V!Cmp(v, w) <= 0 /\ V!Cmp(w, x) <= 0) => V!Cmp(v, x) <= 0
Laws == CASE Part = "v01" -> PathLaws
          [] Part = "v03" -> OrderLaws
          [] OTHER -> TRUE
MEmit == Emit => PrintT("@H" \o ToJson(hist'))
=============================================================================
