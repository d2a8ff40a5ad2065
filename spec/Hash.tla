--------------------------------- MODULE Hash --------------------------------
(* Combining hashes (K03): the value of a list is folded from those of its         *)
(* elements.                                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RECURSIVE Fold(_, _)
Fold(f, l) == IF Len(l) = 0 THEN 0 ELSE IF Len(l) = 1 THEN l[1]
              ELSE f[<<Fold(f, SubSeq(l, 1, Len(l) - 1)), l[Len(l)]>>]
Differ(a, b) == {x \in DOMAIN a : a[x] # b[x]}
\* What is observable of two lists of the same length and of their values' equality.
Lawful(a, b, same) == /\ (a = b => same)
                      /\ Cardinality(Differ(a, b)) = 1 => ~same
=============================================================================
