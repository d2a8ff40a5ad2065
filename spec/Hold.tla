-------------------------------- MODULE Hold --------------------------------
(* What posted callables hold on to, on a polling runner and its timers (T12): a  *)
(* callable is kept until its last run has ended, it is replaced, or its owner    *)
(* goes, and is released by the end of the call that did so.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Timers

VARIABLES cb,      \* callable -> [own, left, st]; own: 0 the runner, else a timer
          tm,      \* timer -> [alive, cur]; cur: the callable it will run, 0: none
          rn,      \* the runner: "up", "dying", "none"
          stack    \* calls in progress and callables running, innermost last
hvars == <<cb, tm, rn, stack>>

HInit == /\ cb = <<>> /\ rn = "up" /\ stack = <<>>
         /\ tm = [t \in Timers |-> [alive |-> TRUE, cur |-> 0]]
Top == IF stack = <<>> THEN [f |-> "client"] ELSE stack[Len(stack)]
Client == Top.f \in {"client", "run"}
Push(x) == stack' = Append(stack, x)
Pop == stack' = SubSeq(stack, 1, Len(stack) - 1)
Add(c, k, x) == [y \in DOMAIN c \cup {k} |-> IF y = k THEN x ELSE c[y]]
Held(s) == {k \in DOMAIN cb : cb[k].st = s}
New(o, n) == [own |-> o, left |-> n, st |-> "kept"]
\* Timer t gives up what it would have run.
Dropped(t) == IF tm[t].cur = 0 THEN cb ELSE [cb EXCEPT ![tm[t].cur].st = "dropped"]

\* Posting holds the callable from then on; also what a callable releases may post.
Post(k, n) == /\ rn = "up" /\ k \notin DOMAIN cb
              /\ cb' = Add(cb, k, New(0, n)) /\ UNCHANGED <<tm, rn, stack>>
Start(t, k) == /\ Client /\ rn = "up" /\ tm[t].alive /\ k \notin DOMAIN cb
               /\ cb' = Add(Dropped(t), k, New(t, 1)) /\ tm' = [tm EXCEPT ![t].cur = k]
               /\ Push([f |-> "call"]) /\ UNCHANGED rn
Destroy(t) == /\ Client /\ tm[t].alive
              /\ cb' = Dropped(t) /\ tm' = [tm EXCEPT ![t] = [alive |-> FALSE, cur |-> 0]]
              /\ Push([f |-> "call"]) /\ UNCHANGED rn
\* What a start replaced or a destruction left is released when the call returns.
Done == /\ Top.f = "call" /\ Held("dropped") = {} /\ Pop /\ UNCHANGED <<cb, tm, rn>>
Create(t) == /\ Client /\ ~tm[t].alive /\ tm' = [tm EXCEPT ![t].alive = TRUE] /\ UNCHANGED <<cb, rn, stack>>
Poll == /\ stack = <<>> /\ rn = "up" /\ Push([f |-> "poll"]) /\ UNCHANGED <<cb, tm, rn>>
\* Everything that has run by then is released.
Polled == /\ Top.f = "poll" /\ Held("spent") = {}
          \* no callable is left between two of its runs
          /\ \A k \in DOMAIN cb : cb[k].st # "between"
          /\ Pop /\ UNCHANGED <<cb, tm, rn>>
Fire(t) == /\ Client /\ tm[t].alive /\ tm[t].cur # 0
           /\ Push([f |-> "fire", t |-> t, k |-> tm[t].cur]) /\ UNCHANGED <<cb, tm, rn>>
Fired(t) == /\ Top.f = "fire" /\ Top.t = t /\ Top.k \notin DOMAIN cb /\ Pop /\ UNCHANGED <<cb, tm, rn>>
Run(k) == /\ k \in DOMAIN cb /\ cb[k].st \in {"kept", "between"}
          /\ IF Top.f = "fire" THEN Top.k = k
             ELSE Top.f = "poll" /\ (cb[k].own # 0 => tm[cb[k].own].cur = k)
          /\ cb' = [cb EXCEPT ![k].st = "running"]
          /\ tm' = IF cb[k].own = 0 THEN tm ELSE [tm EXCEPT ![cb[k].own].cur = 0]
          /\ Push([f |-> "run", k |-> k]) /\ UNCHANGED rn
Ret(k) == /\ Top.f = "run" /\ Top.k = k
          /\ cb' = [cb EXCEPT ![k].left = @ - 1, ![k].st = IF cb[k].left = 1 THEN "spent" ELSE "between"]
          /\ Pop /\ UNCHANGED <<tm, rn>>
Kill == /\ stack = <<>> /\ rn = "up" /\ rn' = "dying" /\ Push([f |-> "kill"]) /\ UNCHANGED <<cb, tm>>
Killed == /\ Top.f = "kill" /\ \A k \in DOMAIN cb : cb[k].own # 0
          /\ rn' = "none" /\ Pop /\ UNCHANGED <<cb, tm>>
NewRunner == /\ stack = <<>> /\ rn = "none" /\ rn' = "up" /\ UNCHANGED <<cb, tm, stack>>
\* A callable and all it holds is gone: never before its last run has ended.
Free(k) == /\ k \in DOMAIN cb
           /\ \/ cb[k].st \in {"spent", "dropped"}
              \/ rn = "dying" /\ cb[k].own = 0 /\ cb[k].st = "kept"
           /\ cb' = [y \in DOMAIN cb \ {k} |-> cb[y]] /\ UNCHANGED <<tm, rn, stack>>
\* With nothing left that could run anything, nothing is held.
End == /\ stack = <<>> /\ rn = "none" /\ (\A t \in Timers : ~tm[t].alive) /\ DOMAIN cb = {} /\ UNCHANGED hvars

Step(e) == CASE e.op = "post" -> Post(e.k, e.n)
             [] e.op = "start" -> Start(e.t, e.k)
             [] e.op = "destroy" -> Destroy(e.t)
             [] e.op = "done" -> Done
             [] e.op = "create" -> Create(e.t)
             [] e.op = "poll" -> Poll
             [] e.op = "polled" -> Polled
             [] e.op = "fire" -> Fire(e.t)
             [] e.op = "fired" -> Fired(e.t)
             [] e.op = "run" -> Run(e.k)
             [] e.op = "ret" -> Ret(e.k)
             [] e.op = "kill" -> Kill
             [] e.op = "killed" -> Killed
             [] e.op = "new" -> NewRunner
             [] e.op = "free" -> Free(e.k)
             [] e.op = "end" -> End
             [] OTHER -> FALSE

\* Whatever runs is held; a timer's callable is held by it; nothing is held by
\* what is gone, outside of calls.
Sound == /\ \A x \in DOMAIN stack : stack[x].f = "run" => stack[x].k \in DOMAIN cb /\ cb[stack[x].k].st = "running"
         /\ \A t \in Timers : tm[t].cur # 0 => /\ tm[t].cur \in DOMAIN cb /\ cb[tm[t].cur].st = "kept"
                                               /\ cb[tm[t].cur].own = t
         /\ \A k \in Held("kept") : cb[k].own # 0 => tm[cb[k].own].cur = k
         /\ stack = <<>> => Held("kept") = DOMAIN cb
         /\ stack = <<>> /\ rn = "none" => \A k \in DOMAIN cb : cb[k].own # 0
=============================================================================
