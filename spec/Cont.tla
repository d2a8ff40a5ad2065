--------------------------------- MODULE Cont --------------------------------
(* A container of elements <<key, tag>>, the tags telling them apart, and the      *)
(* algorithms on it (K03).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES c
Key(x) == x[1]
Before(cmp, x, y) == CASE cmp \in {"none", "less"} -> Key(x) < Key(y)
                       [] cmp = "greater" -> Key(x) > Key(y)
                       [] cmp = "mod" -> Key(x) % 3 < Key(y) % 3
Range(q) == {q[x] : x \in DOMAIN q}
Perm(p, q) == Len(p) = Len(q) /\ Range(p) = Range(q)
Sorted(cmp, q) == \A x \in 1..(Len(q) - 1) : ~Before(cmp, q[x + 1], q[x])
\* Elements that tie keep their order.
At(q, e) == CHOOSE x \in DOMAIN q : q[x] = e
Kept(cmp, p, q) == \A x \in 1..(Len(q) - 1) :
  (~Before(cmp, q[x], q[x + 1]) /\ ~Before(cmp, q[x + 1], q[x])) => At(p, q[x]) < At(p, q[x + 1])
Heap(cmp, q) == \A x \in 2..Len(q) : ~Before(cmp, q[x \div 2], q[x])
Front(q) == SubSeq(q, 1, Len(q) - 1)
Last(q) == q[Len(q)]
Rev(q) == [x \in DOMAIN q |-> q[Len(q) + 1 - x]]
Is(p, k, x) == CASE p = "equal" -> Key(x) = k [] p = "above" -> Key(x) > k
First(p, k, q) == LET H == {x \in DOMAIN q : Is(p, k, q[x])}
                  IN IF H = {} THEN Len(q) ELSE (CHOOSE x \in H : \A y \in H : x <= y) - 1
\* What op e allows the container to become, and to answer: q, r.
Allowed(e, q, r) ==
  CASE e.k = "add" -> q = Append(c, <<e.key, e.tag>>)
    [] e.k = "clear" -> q = <<>>
    [] e.k = "pop" -> c # <<>> /\ q = Front(c)
    [] e.k = "sort" -> Perm(c, q) /\ Sorted(e.cmp, q)
    [] e.k = "stable" -> Perm(c, q) /\ Sorted(e.cmp, q) /\ Kept(e.cmp, c, q)
    [] e.k = "pushheap" -> c # <<>> /\ Heap(e.cmp, Front(c)) /\ Perm(c, q) /\ Heap(e.cmp, q)
    [] e.k = "popheap" -> /\ c # <<>> /\ Heap(e.cmp, c) /\ Perm(c, q)
                          /\ Heap(e.cmp, Front(q)) /\ Last(q) = c[1]
    \* The generator that is given is used.
    [] e.k = "shuffle" -> Perm(c, q) /\ (Len(c) > 1 => r = 1)
    \* Where it is, and how often the predicate is asked.
    [] e.k = "find" -> q = c /\ LET n == First(e.p, e.key, c)
                                IN r = n + 1000 * (IF n = Len(c) THEN n ELSE n + 1)
    [] e.k = "issorted" -> q = c /\ r = (IF Sorted(e.cmp, c) THEN 1 ELSE 0)
    \* From the back, each element itself: its key is changed on the way.
    [] e.k = "raise" -> q = [x \in DOMAIN c |-> <<Key(c[x]) + 1, c[x][2]>>]
    [] OTHER -> FALSE
=============================================================================
