------------------------------- MODULE Timer -------------------------------
(* One-shot timers on a polling task runner (property T09).                 *)
(* Observable behaviour of OneShotTimer: start / fire-now / destruction at  *)
(* any time, including from inside a timer's own task.  The call stack is    *)
(* modelled explicitly: a frame per poll, per fire-now and per running task. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Timers, Delays

VARIABLES now,    \* the runner's clock
          tm,     \* timer slot -> [alive, run, gen, inc, task]
          q,      \* set of posted items [due, seq, t, inc, gen]
          seq,    \* posting counter
          stack   \* call stack, top last

vars == <<now, tm, q, seq, stack>>

NoTask == 0

Init == /\ now = 0
        /\ tm = [t \in Timers |-> [alive |-> TRUE, run |-> FALSE, gen |-> 0,
                                   inc |-> 1, task |-> NoTask]]
        /\ q = {}
        /\ seq = 0
        /\ stack = <<>>

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Depth(k) == Cardinality({i \in DOMAIN stack : stack[i].f = k})

\* The client can call the library when nothing is on the stack or from inside
\* a running task.
ClientTurn == IF stack = <<>> THEN TRUE ELSE Top.f = "cb"

Flag(t) == IF ~tm[t].alive THEN 2 ELSE IF tm[t].run THEN 1 ELSE 0

Start(t, k, d) ==
  /\ ClientTurn
  /\ tm[t].alive
  /\ tm' = [tm EXCEPT ![t].run = TRUE, ![t].gen = @ + 1, ![t].task = k]
  /\ q' = q \cup {[due |-> now + d, seq |-> seq, t |-> t,
                   inc |-> tm[t].inc, gen |-> tm[t].gen + 1]}
  /\ seq' = seq + 1
  /\ UNCHANGED <<now, stack>>

\* FireNow needs the timer to be running.
Fire(t) ==
  /\ ClientTurn
  /\ tm[t].alive /\ tm[t].run
  /\ stack' = Append(stack, [f |-> "fire", t |-> t, done |-> FALSE])
  /\ UNCHANGED <<now, tm, q, seq>>

Destroy(t) ==
  /\ ClientTurn
  /\ tm[t].alive
  /\ tm' = [tm EXCEPT ![t].alive = FALSE, ![t].run = FALSE]
  /\ UNCHANGED <<now, q, seq, stack>>

\* A new timer object in the slot (possibly at the same address).
Create(t) ==
  /\ ClientTurn
  /\ ~tm[t].alive
  /\ tm' = [tm EXCEPT ![t] = [alive |-> TRUE, run |-> FALSE, gen |-> 0,
                              inc |-> tm[t].inc + 1, task |-> NoTask]]
  /\ UNCHANGED <<now, q, seq, stack>>

Advance(d) ==
  /\ ClientTurn
  /\ now' = now + d
  /\ UNCHANGED <<tm, q, seq, stack>>

Before(a, b) == a.due < b.due \/ (a.due = b.due /\ a.seq < b.seq)
RECURSIVE SortItems(_)
SortItems(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y)
                     IN <<m>> \o SortItems(S \ {m})

\* Polling is not re-entrant.
Poll ==
  /\ stack = <<>>
  /\ LET due == {x \in q : x.due <= now}
     IN /\ q' = q \ due
        /\ stack' = <<[f |-> "poll", snap |-> SortItems(due)]>>
  /\ UNCHANGED <<now, tm, seq>>

Live(x) == /\ tm[x.t].alive /\ tm[x.t].inc = x.inc
           /\ tm[x.t].run /\ tm[x.t].gen = x.gen

\* Index of the first posted item of the snapshot that still counts, 0 if none.
FirstLive(s) == LET L == {i \in DOMAIN s : Live(s[i])}
                IN IF L = {} THEN 0 ELSE CHOOSE i \in L : \A j \in L : i <= j

\* The task of a due start begins to run.
RunPolled(k) ==
  /\ stack # <<>> /\ Top.f = "poll"
  /\ LET i == FirstLive(Top.snap)
     IN /\ i # 0
        /\ LET t == Top.snap[i].t
           IN /\ k = tm[t].task
              /\ tm' = [tm EXCEPT ![t].run = FALSE]
        /\ stack' = Append(Append(Pop, [f |-> "poll", snap |-> SubSeq(Top.snap, i + 1, Len(Top.snap))]),
                           [f |-> "cb", k |-> k])
  /\ UNCHANGED <<now, q, seq>>

RunFired(k) ==
  /\ stack # <<>> /\ Top.f = "fire" /\ ~Top.done
  /\ k = tm[Top.t].task
  /\ tm' = [tm EXCEPT ![Top.t].run = FALSE]
  /\ stack' = Append(Append(Pop, [Top EXCEPT !.done = TRUE]), [f |-> "cb", k |-> k])
  /\ UNCHANGED <<now, q, seq>>

Ret(k) ==
  /\ stack # <<>> /\ Top.f = "cb" /\ Top.k = k
  /\ stack' = Pop
  /\ UNCHANGED <<now, tm, q, seq>>

FireRet(t) ==
  /\ stack # <<>> /\ Top.f = "fire" /\ Top.done /\ Top.t = t
  /\ stack' = Pop
  /\ UNCHANGED <<now, tm, q, seq>>

PollRet ==
  /\ stack # <<>> /\ Top.f = "poll" /\ FirstLive(Top.snap) = 0
  /\ stack' = Pop
  /\ UNCHANGED <<now, tm, q, seq>>

Step(e) ==
  CASE e.op = "start"   -> Start(e.t, e.k, e.d)
    [] e.op = "fire"    -> Fire(e.t)
    [] e.op = "fireret" -> FireRet(e.t)
    [] e.op = "destroy" -> Destroy(e.t)
    [] e.op = "create"  -> Create(e.t)
    [] e.op = "adv"     -> Advance(e.d)
    [] e.op = "poll"    -> Poll
    [] e.op = "pollret" -> PollRet
    [] e.op = "run"     -> RunPolled(e.k) \/ RunFired(e.k)
    [] e.op = "ret"     -> Ret(e.k)
    [] OTHER            -> FALSE

---------------------------------------------------------------------------
\* Properties of the specification itself.
TypeOK == \A t \in Timers : tm[t].run => tm[t].alive
\* A running timer has exactly one posted item that can still trigger it.
OneLiveItem ==
  \A t \in Timers : tm[t].run =>
     Cardinality({x \in q : x.t = t /\ Live(x)}
       \cup UNION {{stack[i].snap[j] : j \in {n \in DOMAIN stack[i].snap : stack[i].snap[n].t = t /\ Live(stack[i].snap[n])}}
                   : i \in {m \in DOMAIN stack : stack[m].f = "poll"}}) = 1
=============================================================================
