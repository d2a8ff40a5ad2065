-------------------------------- MODULE Device -------------------------------
(* Threads and their random devices (G02).                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Threads
VARIABLES life,   \* "new", "live" or "gone"
          dev     \* the device a thread has got, 0: none yet
dvars == <<life, dev>>
DInit == life = [t \in Threads |-> IF t = 1 THEN "live" ELSE "new"] /\ dev = [t \in Threads |-> 0]
Start(t) == life[t] = "new" /\ life' = [life EXCEPT ![t] = "live"] /\ UNCHANGED dev
\* The same one every time, and nobody else's.
Fits(t, d, m) == IF m[t] # 0 THEN d = m[t] ELSE d # 0 /\ \A u \in Threads : life[u] = "live" => m[u] # d
Ask(t, d) == life[t] = "live" /\ Fits(t, d, dev) /\ dev' = [dev EXCEPT ![t] = d] /\ UNCHANGED life
\* Several ask at the same time.
RECURSIVE AskAll(_, _, _)
AskAll(ts, ds, m) == IF ts = <<>> THEN dev' = m /\ UNCHANGED life
                     ELSE /\ life[ts[1]] = "live" /\ Fits(ts[1], ds[1], m)
                          /\ AskAll(Tail(ts), Tail(ds), [m EXCEPT ![ts[1]] = ds[1]])
Exit(t) == t # 1 /\ life[t] = "live" /\ life' = [life EXCEPT ![t] = "gone"] /\ dev' = [dev EXCEPT ![t] = 0]
=============================================================================
