----------------------------- MODULE BarrierImpl ----------------------------
(* How the barrier works: a counter under a mutex, a condition variable, and  *)
(* a chain of notify_one calls.  Checked against the view of Barrier.tla for  *)
(* every mix of calls of N threads on a barrier with count C.                 *)
(* Bug selects a broken variant, to see that the properties can fail.         *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS N, C, Spurious, Bug
T == 1..N
VARIABLES kind, pc, counter, sig
\* pc: "call" -> ("wait" <-> "woken") -> "notify" -> "done"; every step that
\* holds the mutex is one action.  sig: number of threads notified and not yet
\* running is part of pc ("woken").
vars == <<kind, pc, counter, sig>>

TypeOK == /\ kind \in [T -> {"down", "downwait", "wait"}]
          /\ pc \in [T -> {"call", "wait", "woken", "notify", "done"}]
          /\ counter \in 0..C

Downs == Cardinality({t \in T : kind[t] # "wait"})
Init == /\ kind \in [T -> {"down", "downwait", "wait"}]
        /\ Downs <= C
        /\ pc = [t \in T |-> "call"] /\ counter = C /\ sig = 0

Enter(t) ==
  /\ pc[t] = "call"
  /\ counter' = IF kind[t] = "wait" THEN counter ELSE counter - 1
  /\ pc' = [pc EXCEPT ![t] =
       IF kind[t] = "down" THEN IF counter' = 0 THEN "notify" ELSE "done"
       ELSE IF counter' # 0 THEN "wait"
       ELSE IF Bug = "nochain" /\ kind[t] = "wait" THEN "done" ELSE "notify"]
  /\ UNCHANGED <<kind, sig>>
Check(t) ==
  /\ pc[t] = "woken"
  /\ pc' = [pc EXCEPT ![t] = IF counter # 0 /\ Bug # "nowhile" THEN "wait"
                             ELSE IF Bug = "nochain" THEN "done" ELSE "notify"]
  /\ UNCHANGED <<kind, counter, sig>>
Notify(t) ==
  /\ pc[t] = "notify"
  /\ IF \E u \in T : pc[u] = "wait"
     THEN \E u \in T : pc[u] = "wait" /\ pc' = [pc EXCEPT ![t] = "done", ![u] = "woken"]
     ELSE pc' = [pc EXCEPT ![t] = "done"]
  /\ UNCHANGED <<kind, counter, sig>>
Spur(t) == /\ Spurious /\ pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "woken"]
           /\ UNCHANGED <<kind, counter, sig>>
Next == \E t \in T : Enter(t) \/ Check(t) \/ Notify(t) \/ Spur(t)
Spec == Init /\ [][Next]_vars

Begun == Cardinality({t \in T : kind[t] # "wait" /\ pc[t] # "call"})
\* No waiting call returns early.
Closed == \A t \in T : (kind[t] # "down" /\ pc[t] \in {"notify", "done"}) => Begun = C
\* When nothing can run and the count is complete, nobody waits.
Released == ((\A t \in T : pc[t] \in {"wait", "done"}) /\ Begun = C) => \A t \in T : pc[t] = "done"
=============================================================================
