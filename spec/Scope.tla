-------------------------------- MODULE Scope -------------------------------
(* Programs of nested scopes with deferred actions and never-destroyed objects    *)
(* (D01).  The stack of open scopes, innermost last; each has a kind and the      *)
(* actions deferred in it that have not run.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"block", "if", "loop", "loop2", "switch", "fn", "try"}
Loops == {"loop", "loop2"}
\* An action: what it is known by, and the action its body defers (0: none).
VARIABLES stack, leaving, todo
svars == <<stack, leaving, todo>>
SInit == stack = <<[kind |-> "fn", acts |-> <<>>]>> /\ leaving = 0 /\ todo = <<>>

Quiet == leaving = 0 /\ todo = <<>>
\* How many scopes an exit leaves; 0: it is not possible here.
Inner(P(_), Q(_)) ==
  LET H == {n \in 1..Len(stack) : P(stack[Len(stack) + 1 - n].kind)}
      n == IF H = {} THEN 0 ELSE CHOOSE m \in H : \A k \in H : m <= k
  IN IF n > 0 /\ \A m \in 1..(n - 1) : Q(stack[Len(stack) + 1 - m].kind) THEN n ELSE 0
NotFn(k) == k # "fn"
Left(how, m) ==
  CASE how = "fall" -> 1
    [] how = "break" -> Inner(LAMBDA k : k \in Loops \cup {"switch"}, NotFn)
    [] how = "continue" -> Inner(LAMBDA k : k \in Loops, NotFn)
    [] how = "return" -> Inner(LAMBDA k : k = "fn", NotFn)
    [] how = "throw" -> Inner(LAMBDA k : k = "try", LAMBDA k : TRUE)
    [] how = "goto" -> IF m <= Len(stack) /\ \A n \in 1..m : stack[Len(stack) + 1 - n].kind # "fn" THEN m ELSE 0

\* Scopes without actions left that are being left are closed.
RECURSIVE Closed(_, _)
Closed(s, n) == IF n > 0 /\ s # <<>> /\ s[Len(s)].acts = <<>> THEN Closed(SubSeq(s, 1, Len(s) - 1), n - 1)
                ELSE [s |-> s, n |-> n]

Enter(kind) == /\ Quiet /\ stack # <<>>
               /\ stack' = Append(stack, [kind |-> kind, acts |-> <<>>])
               /\ UNCHANGED <<leaving, todo>>
Defer(k, sub) == /\ Quiet /\ stack # <<>>
                 /\ stack' = [stack EXCEPT ![Len(stack)].acts = Append(@, [k |-> k, sub |-> sub])]
                 /\ UNCHANGED <<leaving, todo>>
Act == Quiet /\ stack # <<>> /\ UNCHANGED svars
Exit(how, m) == /\ Quiet /\ stack # <<>>
                /\ LET n == Left(how, m)
                       c == Closed(stack, n)
                   IN /\ n > 0
                      /\ stack' = c.s /\ leaving' = c.n
                /\ UNCHANGED todo
Last == stack[Len(stack)].acts[Len(stack[Len(stack)].acts)]
\* An action begins: it is the one deferred last in the innermost scope.
Run(k) == /\ leaving > 0 /\ todo = <<>>
          /\ Last.k = k
          /\ LET s == [stack EXCEPT ![Len(stack)].acts = SubSeq(@, 1, Len(@) - 1)]
                 c == Closed(s, leaving)
             IN IF Last.sub # 0
                THEN stack' = s /\ todo' = <<<<"in", k>>, <<"run", Last.sub>>>> /\ UNCHANGED leaving
                ELSE stack' = c.s /\ leaving' = c.n /\ UNCHANGED todo
\* Inside an action, and the action deferred there.
Sub(w, k) == /\ todo # <<>> /\ todo[1] = <<w, k>>
             /\ todo' = Tail(todo)
             /\ LET c == Closed(stack, leaving)
                IN IF Len(todo) = 1 THEN stack' = c.s /\ leaving' = c.n ELSE UNCHANGED <<stack, leaving>>
=============================================================================
