-------------------------------- MODULE Func --------------------------------
(* Variables that hold a function object or nothing; taking one leaves it empty   *)
(* (D01).  A function object has an identity, a count of its calls and what its   *)
(* body does.  cur: the one that runs after it was taken from its variable.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Vars == 1..3
None == [id |-> 0, n |-> 0]
VARIABLES v, cur
fvars == <<v, cur>>
FInit == v = [x \in Vars |-> None] /\ cur = <<>>
F(id) == [id |-> id, n |-> 0]
Fill(x, id) == v' = [v EXCEPT ![x] = F(id)] /\ UNCHANGED cur
\* Variable y receives what x held; x = y: it keeps it.
Take(x, y) == /\ v' = [z \in Vars |-> IF z = y THEN v[x] ELSE IF z = x THEN None ELSE v[z]]
              /\ UNCHANGED cur
Drop(x) == v' = [v EXCEPT ![x] = None] /\ UNCHANGED cur
Call(x) == v[x].id # 0 /\ v' = [v EXCEPT ![x].n = @ + 1] /\ UNCHANGED cur
\* Takes the function out of x and calls it; in its body y may be filled or taken.
Fire(x) == /\ v[x].id # 0 /\ cur = <<>>
           /\ cur' = <<[v[x] EXCEPT !.n = @ + 1]>>
           /\ v' = [v EXCEPT ![x] = None]
Held == {v[x].id : x \in Vars} \cup {c.id : c \in {cur[y] : y \in DOMAIN cur}}
Unique == \A x, y \in Vars : v[x].id = v[y].id => x = y \/ v[x].id = 0
=============================================================================
