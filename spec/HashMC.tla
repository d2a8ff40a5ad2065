-------------------------------- MODULE HashMC ------------------------------
(* Folding by any mixing function that can be undone in each of its arguments -    *)
(* as the one of hash.cc can: it multiplies by odd numbers, adds, and xors - tells  *)
(* lists apart that differ in one place.  All such functions over a small set.     *)
EXTENDS Hash
CONSTANTS N, MaxLen
Q == 0..(N - 1)
VARIABLES f
Onto(g) == \A x, y \in Q : x # y => g[x] # g[y]
Rows == {g \in [Q -> Q] : Onto(g)}
RECURSIVE Tables(_)
Tables(k) == IF k = 0 THEN {<<>>}
             ELSE {Append(t, g) : t \in Tables(k - 1), g \in Rows}
Latin(t) == \A y \in Q : \A x, z \in 1..N : x # z => t[x][y] # t[z][y]
Init == f \in {[p \in Q \X Q |-> t[p[1] + 1][p[2]]] : t \in {u \in Tables(N) : Latin(u)}}
Next == UNCHANGED f
Lists == UNION {[1..n -> Q] : n \in 0..MaxLen}
OneChange == \A a, b \in Lists : (Len(a) = Len(b)) => Lawful(a, b, Fold(f, a) = Fold(f, b))
=============================================================================
