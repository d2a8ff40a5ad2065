-------------------------------- MODULE Order -------------------------------
(* What is visible to whom (T11): threads, tasks of runners and invocations of     *)
(* synchronous applications ("agents") that read and write plain variables.  Every *)
(* agent has a vector clock; the calls of the library that promise an order join   *)
(* clocks.  A program is fine if accesses that conflict are ordered, or made by     *)
(* agents that never run at the same time.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N,       \* number of agents; agent 1 is the main thread, agent 2 polls
          Vars, Bars
Agents == 1..N
\* Runners 1 and 2 have one thread, 3 and 4 several; the threads of 2 and 4 expire
\* quickly.  Runner 5 is polled by agent 2.
Runners == 1..5
Single(p) == p \in {1, 2, 5}
Poller == 2
VARIABLES st,      \* agent -> "none", "posted", "run", "block", "barrier", "done"
          home,    \* agent -> runner whose task it is, 0: a thread
          kind,    \* agent -> "thread", "task", "delayed", "invocation"
          vc,      \* agent -> its clock
          by,      \* agent -> who created it, and when
          frm,     \* agent -> clock of the creator then
          waits,   \* agent -> the agents a call of it waits for
          on,      \* agent -> the barrier it waits at
          eff,     \* agents whose operations others may depend on
          bar,     \* barrier -> what is to be counted down, and clock of those who did
          open,    \* runners not destroyed yet
          acc,     \* variable -> accesses so far
          det, val \* variable -> is its value certain, and which one
ovars == <<st, home, kind, vc, by, frm, waits, on, eff, bar, open, acc, det, val>>
Zero == [a \in Agents |-> 0]
OInit == /\ st = [a \in Agents |-> IF a = 1 THEN "run" ELSE "none"]
         /\ home = [a \in Agents |-> 0] /\ kind = [a \in Agents |-> "thread"]
         /\ vc = [a \in Agents |-> [Zero EXCEPT ![a] = 1]]
         /\ by = [a \in Agents |-> <<1, 0>>] /\ frm = [a \in Agents |-> Zero]
         /\ waits = [a \in Agents |-> {}] /\ on = [a \in Agents |-> 0] /\ eff = {}
         /\ bar = [k \in Bars |-> [n |-> k + 1, clock |-> Zero]] /\ open = Runners
         /\ acc = [v \in Vars |-> {}] /\ det = [v \in Vars |-> TRUE] /\ val = [v \in Vars |-> 0]

Max(x, y) == IF x > y THEN x ELSE y
Join(c, d) == [a \in Agents |-> Max(c[a], d[a])]
RECURSIVE JoinAll(_, _)
JoinAll(c, S) == IF S = {} THEN c ELSE LET a == CHOOSE x \in S : TRUE IN JoinAll(Join(c, vc[a]), S \ {a})
Knows(c, a, t) == c[a] >= t                \* what a did at t comes before
Tick(m, a) == [m EXCEPT ![a][a] = @ + 1]
Thread(a) == home[a] = 0
Running(a) == st[a] = "run"
\* Those of which never two run at the same time.
Domain(a) == IF home[a] # 0 /\ Single(home[a]) THEN home[a] ELSE IF a = Poller THEN 5 ELSE 0
Exclusive(a, b) == a = b \/ (Domain(a) # 0 /\ Domain(a) = Domain(b))
TasksOf(p) == {a \in Agents : home[a] = p /\ st[a] # "none"}

Born(b, p, k, a) == /\ home' = [home EXCEPT ![b] = p] /\ kind' = [kind EXCEPT ![b] = k]
                    /\ by' = [by EXCEPT ![b] = <<a, vc[a][a]>>] /\ frm' = [frm EXCEPT ![b] = vc[a]]
Own(c, b) == [c EXCEPT ![b] = 1]
Spawn(a, b) ==
  /\ Running(a) /\ Thread(a) /\ st[b] = "none"
  /\ st' = [st EXCEPT ![b] = "run"] /\ Born(b, 0, "thread", a)
  /\ vc' = Tick([vc EXCEPT ![b] = Own(vc[a], b)], a)
  /\ UNCHANGED <<waits, on, eff, bar, open, acc, det, val>>
End(a) == /\ Running(a) /\ a # 1
          /\ st' = [st EXCEPT ![a] = "done"]
          /\ UNCHANGED <<home, kind, vc, by, frm, waits, on, eff, bar, open, acc, det, val>>
JoinThread(a, b) ==
  /\ Running(a) /\ Thread(a) /\ st[b] = "done" /\ Thread(b) /\ by[b][1] = a /\ ~Knows(vc[a], b, vc[b][b])
  /\ vc' = [vc EXCEPT ![a] = Join(@, vc[b])]
  /\ UNCHANGED <<st, home, kind, by, frm, waits, on, eff, bar, open, acc, det, val>>
Post(a, b, p, delayed) ==
  /\ Running(a) /\ st[b] = "none" /\ p \in open
  /\ st' = [st EXCEPT ![b] = "posted"] /\ Born(b, p, IF delayed THEN "delayed" ELSE "task", a)
  /\ vc' = Tick(vc, a) /\ eff' = eff \cup {a}
  /\ UNCHANGED <<waits, on, bar, open, acc, det, val>>
\* Tasks certain to run before.
Before(b) == IF Single(home[b]) /\ kind[b] = "task"
             THEN {c \in TasksOf(home[b]) : c # b /\ kind[c] = "task" /\ Knows(frm[b], by[c][1], by[c][2])}
             ELSE {}
Begin(b) ==
  /\ st[b] = "posted" /\ home[b] # 5
  /\ \A c \in Before(b) : st[c] = "done"
  /\ st' = [st EXCEPT ![b] = "run"]
  /\ vc' = [vc EXCEPT ![b] = Own(JoinAll(frm[b], Before(b)), b)]
  /\ UNCHANGED <<home, kind, by, frm, waits, on, eff, bar, open, acc, det, val>>
\* Runs what has been posted so far.
Poll(a) ==
  LET bs == {b \in TasksOf(5) : st[b] = "posted"} IN
  /\ a = Poller /\ Running(a) /\ bs # {}
  /\ st' = [b \in Agents |-> IF b = a THEN "block" ELSE IF b \in bs THEN "run" ELSE st[b]]
  /\ waits' = [waits EXCEPT ![a] = bs]
  /\ vc' = [b \in Agents |-> IF b \in bs THEN Own(frm[b], b) ELSE vc[b]]
  /\ UNCHANGED <<home, kind, by, frm, on, eff, bar, open, acc, det, val>>
Apply(a, bs, p) ==
  /\ Running(a) /\ bs # {} /\ p \in open /\ p # 5
  /\ Thread(a) \/ home[a] < p
  /\ \A b \in bs : st[b] = "none"
  /\ st' = [b \in Agents |-> IF b = a THEN "block" ELSE IF b \in bs THEN "run" ELSE st[b]]
  /\ waits' = [waits EXCEPT ![a] = bs]
  /\ home' = [b \in Agents |-> IF b \in bs THEN p ELSE home[b]]
  /\ kind' = [b \in Agents |-> IF b \in bs THEN "invocation" ELSE kind[b]]
  /\ by' = [b \in Agents |-> IF b \in bs THEN <<a, vc[a][a]>> ELSE by[b]]
  /\ frm' = [b \in Agents |-> IF b \in bs THEN vc[a] ELSE frm[b]]
  /\ vc' = Tick([b \in Agents |-> IF b \in bs THEN Own(vc[a], b) ELSE vc[b]], a)
  /\ eff' = eff \cup {a} \cup bs
  /\ UNCHANGED <<on, bar, open, acc, det, val>>
\* The call that waited returns.
Return(a) ==
  /\ st[a] = "block" /\ \A b \in waits[a] : st[b] = "done"
  /\ st' = [st EXCEPT ![a] = "run"]
  /\ vc' = [vc EXCEPT ![a] = JoinAll(@, waits[a])]
  /\ waits' = [waits EXCEPT ![a] = {}]
  /\ UNCHANGED <<home, kind, by, frm, on, eff, bar, open, acc, det, val>>
Down(a, k) == /\ bar[k].n > 0 /\ bar' = [bar EXCEPT ![k] = [n |-> @.n - 1, clock |-> Join(@.clock, vc[a])]]
              /\ vc' = Tick(vc, a) /\ eff' = eff \cup {a}
CountDown(a, k) == Running(a) /\ Down(a, k) /\ UNCHANGED <<st, home, kind, by, frm, waits, on, open, acc, det, val>>
CountDownAndWait(a, k) ==
  /\ Running(a) /\ Thread(a) /\ a # 1 /\ Down(a, k)
  /\ st' = [st EXCEPT ![a] = "barrier"] /\ on' = [on EXCEPT ![a] = k]
  /\ UNCHANGED <<home, kind, by, frm, waits, open, acc, det, val>>
Through(a, k) == bar[k].n = 0 /\ vc' = [vc EXCEPT ![a] = Join(@, bar[k].clock)]
Wait(a, k) == /\ Running(a) /\ Thread(a) /\ Through(a, k)
              /\ UNCHANGED <<st, home, kind, by, frm, waits, on, eff, bar, open, acc, det, val>>
Released(a) == /\ st[a] = "barrier" /\ Through(a, on[a])
               /\ st' = [st EXCEPT ![a] = "run"] /\ on' = [on EXCEPT ![a] = 0]
               /\ UNCHANGED <<home, kind, by, frm, waits, eff, bar, open, acc, det, val>>
\* All that was posted to a runner is known to its destroyer.  A task may be dropped
\* if nobody depends on it.
Droppable(p, a) == {b \in TasksOf(p) : ~(st[b] = "done" /\ Knows(vc[a], b, vc[b][b]))}
Destroy(a, p) ==
  LET drop == Droppable(p, a) IN
  /\ a = 1 /\ Running(a) /\ p \in open /\ p # 5
  /\ \A b \in TasksOf(p) : st[b] \in {"done", "posted"} /\ Knows(vc[a], by[b][1], by[b][2])
  /\ drop \cap eff = {}
  /\ open' = open \ {p}
  /\ st' = [b \in Agents |-> IF b \in drop THEN "done" ELSE st[b]]
  /\ vc' = [vc EXCEPT ![a] = JoinAll(@, {b \in TasksOf(p) : st[b] = "done"})]
  /\ det' = [v \in Vars |-> det[v] /\ \A x \in acc[v] : x.w => x.a \notin drop]
  /\ UNCHANGED <<home, kind, by, frm, waits, on, eff, bar, acc, val>>

Ordered(x, a) == Knows(vc[a], x.a, x.c)
May(a, v, w) == /\ Running(a)
                /\ \A x \in acc[v] : (x.w \/ w) => (Ordered(x, a) \/ Exclusive(x.a, a))
Certain(a, v) == det[v] /\ \A x \in acc[v] : x.w => Ordered(x, a)
AllKnown(a, v) == \A x \in acc[v] : x.w => Ordered(x, a)
Note(a, v, w) == acc' = [acc EXCEPT ![v] = @ \cup {[a |-> a, c |-> vc[a][a], w |-> w]}]
Quiet == UNCHANGED <<st, home, kind, vc, by, frm, waits, on, eff, bar, open>>
Read(a, v) == May(a, v, FALSE) /\ Note(a, v, FALSE) /\ UNCHANGED <<det, val>> /\ Quiet
Write(a, v, x) == /\ May(a, v, TRUE) /\ Note(a, v, TRUE) /\ Quiet
                  /\ det' = [det EXCEPT ![v] = AllKnown(a, v)] /\ val' = [val EXCEPT ![v] = x]
Add(a, v) == /\ May(a, v, TRUE) /\ Note(a, v, TRUE) /\ Quiet
             /\ det' = [det EXCEPT ![v] = Certain(a, v)] /\ val' = [val EXCEPT ![v] = @ + 1]
\* Calls that need no order of the caller: logging, files, identifiers, formatting.
Use(a) == Running(a) /\ UNCHANGED ovars

Op(e) ==
  CASE e.k = "spawn" -> Spawn(e.a, e.x)
    [] e.k = "end" -> End(e.a)
    [] e.k = "join" -> JoinThread(e.a, e.x)
    [] e.k = "post" -> Post(e.a, e.x, e.y, FALSE)
    [] e.k = "later" -> Post(e.a, e.x, e.y, TRUE)
    [] e.k = "begin" -> Begin(e.a)
    [] e.k = "poll" -> Poll(e.a)
    [] e.k = "apply" -> Apply(e.a, e.x..(e.x + e.n - 1), e.y)
    [] e.k = "return" -> Return(e.a)
    [] e.k = "down" -> CountDown(e.a, e.x)
    [] e.k = "downwait" -> CountDownAndWait(e.a, e.x)
    [] e.k = "wait" -> Wait(e.a, e.x)
    [] e.k = "released" -> Released(e.a)
    [] e.k = "destroy" -> Destroy(e.a, e.x)
    [] e.k = "read" -> Read(e.a, e.x)
    [] e.k = "write" -> Write(e.a, e.x, e.y)
    [] e.k = "add" -> Add(e.a, e.x)
    [] e.k = "use" -> Use(e.a)
    [] OTHER -> FALSE
\* Conflicting accesses are ordered one way or the other.
NoRace == \A v \in Vars : \A x, y \in acc[v] :
            (x.a # y.a /\ (x.w \/ y.w)) =>
              \/ Exclusive(x.a, y.a)
              \/ Knows(vc[y.a], x.a, x.c) \/ Knows(vc[x.a], y.a, y.c)
Clocks == \A a, b \in Agents : a # b /\ st[a] # "none" => vc[a][b] <= vc[b][b]
=============================================================================
