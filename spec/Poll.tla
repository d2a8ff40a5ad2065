-------------------------------- MODULE Poll --------------------------------
(* Polling task runner (property T07): posts from any thread, polls by one    *)
(* thread.  A post is put into the queue at some moment of its call, with a   *)
(* due time read at some moment of its call; a poll takes, at one moment      *)
(* before its first task, everything due, and runs exactly that, in order of  *)
(* due time and then of queueing.                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MaxT == 1000000000         \* the end of time: due times saturate here

VARIABLES
  clk,     \* the time function
  times,   \* values it has had
  it,      \* posts by id
  q,       \* queue: ids by due time, then by queueing
  poll,    \* [st: "no" | "begun" | "taken", fs: times that the poll may use]
  batch,   \* ids of the tasks the poll has taken and not finished, in order
  cur      \* iteration of Head(batch) that runs, or NoIter

vars == <<clk, times, it, q, poll, batch, cur>>
NoIter == 1000000
Since(t) == {f \in times : f >= t}
Min(a, b) == IF a < b THEN a ELSE b

Init == /\ clk = 0 /\ times = {0} /\ it = <<>> /\ q = <<>>
        /\ poll = [st |-> "no", lo |-> 0] /\ batch = <<>> /\ cur = NoIter

Advance(v) == /\ v >= clk /\ clk' = v /\ times' = times \cup {v}
              /\ UNCHANGED <<it, q, poll, batch, cur>>

\* A posting call begins. n iterations; ap: the caller waits for all of them.
Post(k, d, n, ap) ==
  /\ k = Len(it) + 1
  /\ it' = Append(it, [d |-> d, n |-> n, ap |-> ap, lo |-> clk, st |-> "new",
                       due |-> 0, fin |-> 0, ret |-> FALSE])
  /\ UNCHANGED <<clk, times, q, poll, batch, cur>>

\* q with k put after everything due no later than d.
Insert(k, d) == LET n == Cardinality({x \in DOMAIN q : it[q[x]].due <= d})
                IN SubSeq(q, 1, n) \o <<k>> \o SubSeq(q, n + 1, Len(q))
\* The post takes effect, having read the time f.
Queue(k, f) ==
  /\ k \in DOMAIN it /\ it[k].st = "new"
  /\ f \in Since(it[k].lo)
  /\ LET due == Min(f + it[k].d, MaxT) IN
     /\ it' = [it EXCEPT ![k].st = "queued", ![k].due = due]
     /\ q' = Insert(k, due)
  /\ UNCHANGED <<clk, times, poll, batch, cur>>
Posted(k) ==
  /\ k \in DOMAIN it /\ it[k].st # "new" /\ ~it[k].ret
  /\ it[k].ap => it[k].fin = it[k].n
  /\ it' = [it EXCEPT ![k].ret = TRUE]
  /\ UNCHANGED <<clk, times, q, poll, batch, cur>>

PollBegin == /\ poll.st = "no"
             /\ poll' = [st |-> "begun", lo |-> clk]
             /\ UNCHANGED <<clk, times, it, q, batch, cur>>

\* The poll takes what is due at time f.
Take(f) ==
  /\ poll.st = "begun" /\ f \in Since(poll.lo)
  /\ LET n == Cardinality({x \in DOMAIN q : it[q[x]].due <= f}) IN
     /\ batch' = SubSeq(q, 1, n)
     /\ q' = SubSeq(q, n + 1, Len(q))
     /\ it' = [k \in DOMAIN it |-> IF \E x \in 1..n : q[x] = k THEN [it[k] EXCEPT !.st = "taken"] ELSE it[k]]
  /\ poll' = [poll EXCEPT !.st = "taken"]
  /\ UNCHANGED <<clk, times, cur>>

Start(k, i) ==
  /\ poll.st = "taken" /\ batch # <<>> /\ k = Head(batch) /\ cur = NoIter
  /\ i = it[k].fin
  /\ cur' = i
  /\ UNCHANGED <<clk, times, it, q, poll, batch>>
End(k, i) ==
  /\ poll.st = "taken" /\ batch # <<>> /\ k = Head(batch) /\ cur = i
  /\ cur' = NoIter
  /\ it' = [it EXCEPT ![k].fin = @ + 1]
  /\ batch' = IF it[k].fin + 1 = it[k].n THEN Tail(batch) ELSE batch
  /\ UNCHANGED <<clk, times, q, poll>>

\* All iterations of k up to (not including) i, one after the other: Start and
\* End repeatedly.
Many(k, i) ==
  /\ poll.st = "taken" /\ batch # <<>> /\ k = Head(batch) /\ cur = NoIter
  /\ it[k].fin < i /\ i <= it[k].n
  /\ it' = [it EXCEPT ![k].fin = i]
  /\ batch' = IF i = it[k].n THEN Tail(batch) ELSE batch
  /\ UNCHANGED <<clk, times, q, poll, cur>>

PollEnd == /\ poll.st = "taken" /\ batch = <<>> /\ cur = NoIter
           /\ poll' = [poll EXCEPT !.st = "no"]
           /\ UNCHANGED <<clk, times, it, q, batch, cur>>
=============================================================================
