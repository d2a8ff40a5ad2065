-------------------------------- MODULE Value -------------------------------
(* JSON values (properties V01-V04) as abstract trees.                        *)
(* A tree is <<type, n, keys, children>>: n is 0/1 for a bool, the number of  *)
(* a table entry for a number or a string; keys (of an object) are numbers of *)
(* string table entries.  The string table is sorted bytewise, so numbers of  *)
(* strings compare like the strings.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Rank(_),      \* position of a number on the number line (equal for 0 and -0)
  AsInt64(_),   \* its decimal digits if it is a 64-bit integer value, else ""
  AsInt(_)      \* same for int

Null == <<"null", 0, <<>>, <<>>>>
EmptyObj == <<"obj", 0, <<>>, <<>>>>
EmptyArr == <<"arr", 0, <<>>, <<>>>>
Typ(v) == v[1]
IsObj(v) == v[1] = "obj"
Keys(v) == v[3]
Kids(v) == v[4]

HasKey(v, k) == \E x \in DOMAIN Keys(v) : Keys(v)[x] = k
Idx(v, k) == CHOOSE x \in DOMAIN Keys(v) : Keys(v)[x] = k
Child(v, k) == Kids(v)[Idx(v, k)]

\* x stored under k: replaces what is there or goes to its place in key order.
SetK(v, k, x) ==
  IF HasKey(v, k) THEN <<"obj", 0, Keys(v), [Kids(v) EXCEPT ![Idx(v, k)] = x]>>
  ELSE LET p == Cardinality({y \in DOMAIN Keys(v) : Keys(v)[y] < k})
           Ins(s, y) == SubSeq(s, 1, p) \o <<y>> \o SubSeq(s, p + 1, Len(s))
       IN <<"obj", 0, Ins(Keys(v), k), Ins(Kids(v), x)>>
Without(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
RemK(v, k) == IF HasKey(v, k) THEN <<"obj", 0, Without(Keys(v), Idx(v, k)), Without(Kids(v), Idx(v, k))>>
              ELSE v

RECURSIVE SetP(_, _, _)
SetP(v, p, x) ==
  IF Len(p) = 1 THEN SetK(v, p[1], x)
  ELSE LET c == IF HasKey(v, p[1]) /\ IsObj(Child(v, p[1])) THEN Child(v, p[1]) ELSE EmptyObj
       IN SetK(v, p[1], SetP(c, Tail(p), x))
\* The value at a path: <<>> or <<value>>.
RECURSIVE FindP(_, _)
FindP(v, p) ==
  IF ~HasKey(v, p[1]) THEN <<>>
  ELSE LET c == Child(v, p[1])
       IN IF Len(p) = 1 THEN <<c>> ELSE IF IsObj(c) THEN FindP(c, Tail(p)) ELSE <<>>
FindK(v, k) == FindP(v, <<k>>)
FindKT(v, k, t) == IF HasKey(v, k) /\ Typ(Child(v, k)) = t THEN FindK(v, k) ELSE <<>>

\* Steps into a tree: <<"k", key>> or <<"i", index from 1>>.
RECURSIVE At(_, _)
At(v, l) == IF l = <<>> THEN v
            ELSE At(IF l[1][1] = "k" THEN Child(v, l[1][2]) ELSE Kids(v)[l[1][2]], Tail(l))
RECURSIVE Exists(_, _)
Exists(v, l) ==
  IF l = <<>> THEN TRUE
  ELSE IF l[1][1] = "k" THEN IsObj(v) /\ HasKey(v, l[1][2]) /\ Exists(Child(v, l[1][2]), Tail(l))
       ELSE Typ(v) = "arr" /\ l[1][2] \in DOMAIN Kids(v) /\ Exists(Kids(v)[l[1][2]], Tail(l))
RECURSIVE Put(_, _, _)
Put(v, l, x) ==
  IF l = <<>> THEN x
  ELSE LET p == IF l[1][1] = "k" THEN Idx(v, l[1][2]) ELSE l[1][2]
       IN <<v[1], v[2], v[3], [Kids(v) EXCEPT ![p] = Put(@, Tail(l), x)]>>
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* Total order: -1, 0 or 1.
Order == [t \in {"null", "bool", "num", "str", "arr", "obj"} |->
  CASE t = "null" -> 0 [] t = "bool" -> 1 [] t = "num" -> 2 [] t = "str" -> 3 [] t = "arr" -> 4 [] OTHER -> 5]
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE Cmp(_, _)
RECURSIVE CmpKids(_, _, _)
\* Children from the x-th on, each object member being a pair of key and value.
CmpKids(a, b, x) ==
  IF x > Len(Kids(a)) \/ x > Len(Kids(b)) THEN Sgn(Len(Kids(a)), Len(Kids(b)))
  ELSE LET ck == IF IsObj(a) THEN Sgn(Keys(a)[x], Keys(b)[x]) ELSE 0
       IN IF ck # 0 THEN ck
          ELSE LET c == Cmp(Kids(a)[x], Kids(b)[x])
               IN IF c # 0 THEN c ELSE CmpKids(a, b, x + 1)
Cmp(a, b) ==
  IF Typ(a) # Typ(b) THEN Sgn(Order[Typ(a)], Order[Typ(b)])
  ELSE CASE Typ(a) = "null" -> 0
         [] Typ(a) = "num" -> Sgn(Rank(a[2]), Rank(b[2]))
         [] Typ(a) \in {"arr", "obj"} -> CmpKids(a, b, 1)
         [] OTHER -> Sgn(a[2], b[2])
\* ==, !=, <, >, <=, >=
Six(a, b) == LET c == Cmp(a, b) IN <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>

\* Predicates: null, bool, number, int64, int, string, array, object.
Preds(v) ==
  LET t == Typ(v) IN
  <<t = "null", t = "bool", t = "num", t = "num" /\ AsInt64(v[2]) # "", t = "num" /\ AsInt(v[2]) # "",
    t = "str", t = "arr", t = "obj">>
\* What a getter needs.
Can(v, g) == CASE g = "bool" -> Typ(v) = "bool"
               [] g = "int64" -> Typ(v) = "num" /\ AsInt64(v[2]) # ""
               [] g = "int" -> Typ(v) = "num" /\ AsInt(v[2]) # ""
               [] g = "double" -> Typ(v) = "num"
               [] g = "string" -> Typ(v) = "str"
               [] g = "array" -> Typ(v) = "arr"
               [] g = "object" -> Typ(v) = "obj"
               [] g = "any" -> TRUE
Numeric == {"int64", "int"}
Got(v, g) == IF g = "int64" THEN AsInt64(v[2]) ELSE AsInt(v[2])
=============================================================================
