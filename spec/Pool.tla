------------------------------- MODULE Pool --------------------------------
(* Thread-pool task runner as a client sees it (properties T01-T06, T10):    *)
(* posting, delayed posting, synchronous application, running tasks, release *)
(* of captures, thread expiry and destruction.                               *)
(* Order is a partial order: item j was posted before item k if j had        *)
(* entered the pool (its post returned, or it started) when the call posting *)
(* k began.  Each clause that decides one of the properties is guarded by    *)
(* membership of its name in Enf, so that a check rejects only what its own  *)
(* property forbids.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT Enf      \* subset of Clauses
Clauses == {"fifo", "bound", "conserve", "delay", "due", "dueorder", "lost", "release",
            "apply", "destroy", "destroylive", "expire", "keep", "threads"}

VARIABLES
  conf,    \* [max, keep]
  clk,     \* number of steps so far
  now,     \* clock of the system
  fnow,    \* time function of the pool (never ahead of now's progress)
  last,    \* last time any task or post was active
  it,      \* posted items by id
  run,     \* running invocations: set of <<k, i, worker>>
  apps,    \* synchronous applications whose caller has not returned
  dst,     \* 0 alive, 1 being destroyed, 2 destroyed
  idle,    \* worker -> time of its last task end
  late     \* how much time has passed while some thread could have gone on

vars == <<conf, clk, now, fnow, last, it, run, apps, dst, idle, late>>

On(c) == c \in Enf
Tock == clk' = clk + 1

PInit == /\ conf = [max |-> 0, keep |-> 0]
         /\ clk = 1
         /\ now = 0 /\ fnow = 0 /\ last = 0
         /\ it = <<>> /\ run = {} /\ apps = {} /\ dst = 0 /\ idle = <<>> /\ late = 0

Conf(m, kp) == /\ conf.max = 0
               /\ conf' = [max |-> m, keep |-> kp]
               /\ UNCHANGED <<now, fnow, last, it, run, apps, dst, idle, late>>

\* pst: when the post began; ent: when the item was first known to be in the pool
\* (0: not yet); entf: the time function then; left: iterations that have not
\* started; fin: iterations that have ended.
NewItem(d, n, ap, f) ==
  [ap |-> ap, d |-> d, n |-> n, left |-> n, fin |-> 0, pst |-> clk, ent |-> 0, entf |-> 0,
   due |-> IF d = 0 THEN 0 ELSE f + d, ret |-> FALSE, rel |-> FALSE, used |-> {},
   late |-> late]

\* Posting is possible until the destructor has returned. f: the value of the time
\* function that the posting call used.
Post(k, d, f) ==
  /\ dst < 2
  /\ k = Len(it) + 1
  /\ f >= fnow
  /\ it' = Append(it, NewItem(d, 1, FALSE, f))
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, apps, dst, idle, late>>

Apply(k, n) ==
  /\ dst < 2
  /\ k = Len(it) + 1
  /\ it' = Append(it, NewItem(0, n, TRUE, 0))
  /\ apps' = apps \cup {k}
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, dst, idle, late>>

Enter(r) == [r EXCEPT !.ent = IF @ = 0 THEN clk ELSE @,
                      !.entf = IF r.ent = 0 THEN fnow ELSE @]

\* The posting call returns.
Posted(k) ==
  /\ k \in DOMAIN it /\ ~it[k].ret /\ k \notin apps
  /\ it' = [it EXCEPT ![k] = [Enter(@) EXCEPT !.ret = TRUE]]
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, apps, dst, idle, late>>

PostedBefore(j, k) == it[j].ent # 0 /\ it[j].ent < it[k].pst

\* Undelayed items that must be taken up before k.
Ahead(k) == {j \in DOMAIN it : it[j].left > 0 /\ it[j].d = 0 /\ j # k /\ PostedBefore(j, k)}
\* Delayed items that must be taken up before delayed k: due earlier, or at the same
\* time and posted before - and in the pool before k could have been taken up.
AheadDelayed(k) ==
  {j \in DOMAIN it : /\ it[j].left > 0 /\ it[j].d > 0 /\ j # k
                     /\ \/ it[j].due < it[k].due
                        \/ it[j].due = it[k].due /\ PostedBefore(j, k)
                     /\ it[j].ent # 0
                     /\ it[j].entf < it[k].due \/ PostedBefore(j, k)}

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN it[x].left + Sum(S \ {x})

\* All iterations that must come before k and have not started can be in the hands
\* of workers, together with those running and this one.
Turn(A) == Sum(A) + Cardinality(run) + 1 <= conf.max

\* An invocation starts on worker w.
Start(k, i, w) ==
  /\ dst < 2
  /\ k \in DOMAIN it
  /\ it[k].left > 0
  /\ (it[k].d = 0 /\ On("fifo")) => Turn(Ahead(k))
  /\ it[k].d > 0 => /\ On("delay") => it[k].due <= fnow
                    /\ On("dueorder") => Turn(AheadDelayed(k))
  /\ On("bound") => Cardinality(run) + 1 <= conf.max
  /\ On("apply") => (i < it[k].n /\ i \notin it[k].used)
  /\ (On("release") \/ (On("apply") /\ it[k].ap)) => ~it[k].rel
  /\ it' = [it EXCEPT ![k] = [Enter(@) EXCEPT !.left = @ - 1, !.used = @ \cup {i}]]
  /\ run' = run \cup {<<k, i, w>>}
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, apps, dst, idle, late>>

End(k, i, w) ==
  /\ <<k, i, w>> \in run
  /\ (On("release") \/ (On("apply") /\ it[k].ap)) => ~it[k].rel
  /\ run' = run \ {<<k, i, w>>}
  /\ it' = [it EXCEPT ![k].fin = @ + 1]
  /\ last' = now
  /\ idle' = [x \in (DOMAIN idle) \cup {w} |-> IF x = w THEN now ELSE idle[x]]
  /\ UNCHANGED <<conf, now, fnow, apps, dst, late>>

\* The captured state of k goes away: after its last run has ended, or dropped by
\* the destructor.
Rel(k) ==
  /\ k \in DOMAIN it
  /\ (On("release") \/ (On("apply") /\ it[k].ap)) =>
        /\ ~it[k].rel
        /\ \A x \in run : x[1] # k
        /\ it[k].fin = it[k].n \/ dst = 1
  /\ it' = [it EXCEPT ![k].rel = TRUE]
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, apps, dst, idle, late>>

Applied(k) ==
  /\ k \in apps
  /\ On("apply") => it[k].fin = it[k].n
  /\ apps' = apps \ {k}
  /\ it' = [it EXCEPT ![k] = [Enter(@) EXCEPT !.ret = TRUE]]
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, dst, idle, late>>

\* A synchronous application with many iterations returns; calls: how many
\* invocations there were; distinct: how many different indices below n they got.
\* Stands for all the Start, End and Rel steps of k and Applied(k).
Bulk(k, calls, distinct) ==
  /\ k \in apps
  /\ On("apply") => calls = it[k].n /\ distinct = it[k].n
  /\ apps' = apps \ {k}
  /\ it' = [it EXCEPT ![k] = [Enter(@) EXCEPT !.ret = TRUE, !.left = 0, !.fin = it[k].n, !.rel = TRUE]]
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, dst, idle, late>>

\* Many single tasks that one thread posts one after another.  runs: how many
\* invocations there have been; distinct: of how many of them; worst: the most that
\* were running, or had to be taken up before and had not been, when one was taken
\* up (itself included); same: the time function stood still while they were posted.
\* Stands for all their steps until all have run.
Burst(k, n, d, f) ==
  /\ dst < 2
  /\ k = Len(it) + 1
  /\ it' = Append(it, NewItem(d, n, FALSE, f))
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, apps, dst, idle, late>>
BurstRan(k, runs, distinct, worst, same) ==
  /\ k \in DOMAIN it /\ it[k].ret
  /\ On("lost") => runs = it[k].n /\ distinct = it[k].n
  /\ (it[k].d = 0 /\ On("fifo")) => worst <= conf.max
  /\ (it[k].d > 0 /\ On("dueorder") /\ same) => worst <= conf.max
  /\ it' = [it EXCEPT ![k] = [@ EXCEPT !.left = 0, !.fin = it[k].n, !.rel = TRUE]]
  /\ last' = now
  /\ UNCHANGED <<conf, now, fnow, run, apps, dst, idle, late>>

Destroy ==
  /\ dst = 0
  /\ dst' = 1
  /\ UNCHANGED <<conf, now, fnow, last, it, run, apps, idle, late>>

Destroyed ==
  /\ dst = 1
  /\ On("destroy") => /\ run = {}
                      /\ \A k \in DOMAIN it : it[k].ret
                      /\ \A k \in DOMAIN it : it[k].rel
  /\ dst' = 2
  /\ run' = IF On("destroy") THEN run ELSE {}
  /\ UNCHANGED <<conf, now, fnow, last, it, apps, idle, late>>

\* busy: time passes although some thread could have gone on.
Tick(n, f, busy) ==
  /\ n >= now /\ f >= fnow
  /\ now' = n /\ fnow' = f
  /\ last' = IF busy THEN n ELSE last
  /\ late' = IF busy THEN late + (n - now) ELSE late
  /\ UNCHANGED <<conf, it, run, apps, dst, idle>>

Spurious == last' = now /\ UNCHANGED <<conf, now, fnow, it, run, apps, dst, idle, late>>

\* A pool thread ends.
Exit(w) ==
  /\ On("keep") => (dst = 0 /\ w \in DOMAIN idle => now - idle[w] >= conf.keep)
  /\ UNCHANGED <<conf, now, fnow, last, it, run, apps, dst, idle, late>>

\* Tasks that must be taken up now. A thread that finds out how long it has to wait
\* and is then kept from running for a while begins to wait too late and so wakes up
\* too late by at most that while; at a standstill nothing is allowed for.
Ready(stuck) == {k \in DOMAIN it : it[k].left > 0 /\
  (it[k].d > 0 => it[k].due + (IF stuck THEN 0 ELSE late - it[k].late) <= fnow)}

\* Every thread is blocked (n pool threads are live): nothing happens unless time
\* passes or a client acts.
Idle(n, stuck) ==
  /\ On("lost") => /\ \A k \in DOMAIN it : it[k].ret \/ k \in apps
                   /\ (dst = 0 /\ Ready(stuck) # {}) => run # {}
  /\ On("conserve") => ((dst = 0 /\ Ready(stuck) # {}) => Cardinality(run) >= conf.max)
  /\ On("due") => ((dst = 0 /\ \E k \in Ready(stuck) : it[k].d > 0) => Cardinality(run) >= conf.max)
  /\ On("apply") => \A k \in apps : it[k].fin < it[k].n /\ run # {}
  /\ On("release") => \A k \in DOMAIN it : (it[k].fin = it[k].n /\ k \notin apps) => it[k].rel
  /\ On("destroylive") => (dst = 1 => run # {})
  /\ On("threads") => n <= conf.max + 1
  /\ On("expire") => (dst = 0 /\ now > last + conf.keep => n <= 1 + Cardinality(run))
  /\ UNCHANGED <<conf, now, fnow, last, it, run, apps, dst, idle, late>>

\* Everything has come to an end.
Fin == dst = 2 /\ run = {} /\ UNCHANGED <<conf, now, fnow, last, it, run, apps, dst, idle, late>>
\* The run cannot go on; whether that is a fault is for Idle to say.
Stuck == UNCHANGED <<conf, now, fnow, last, it, run, apps, dst, idle, late>>

Step(e) ==
  /\ CASE e.op = "conf"      -> Conf(e.max, e.keep)
       [] e.op = "post"      -> \E f \in e.fl..e.fh : Post(e.k, e.d, f)
       [] e.op = "posted"    -> Posted(e.k)
       [] e.op = "apply"     -> Apply(e.k, e.n)
       [] e.op = "applied"   -> Applied(e.k)
       [] e.op = "bulk"      -> Bulk(e.k, e.calls, e.distinct)
       [] e.op = "burst"     -> Burst(e.k, e.n, e.d, fnow)
       [] e.op = "burstran"  -> BurstRan(e.k, e.runs, e.distinct, e.worst, e.same)
       [] e.op = "start"     -> Start(e.k, e.i, e.w)
       [] e.op = "end"       -> End(e.k, e.i, e.w)
       [] e.op = "rel"       -> Rel(e.k)
       [] e.op = "destroy"   -> Destroy
       [] e.op = "destroyed" -> Destroyed
       [] e.op = "tick"      -> Tick(e.now, e.f, e.busy)
       [] e.op = "spur"      -> Spurious
       [] e.op = "exit"      -> Exit(e.w)
       [] e.op = "idle"      -> Idle(e.live, e.stuck)
       [] e.op = "fin"       -> Fin
       [] e.op = "stuck"     -> Stuck
       [] OTHER              -> FALSE
  /\ Tock
=============================================================================
