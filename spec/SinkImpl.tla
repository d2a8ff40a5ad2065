------------------------------ MODULE SinkImpl ------------------------------
(* How the file sinks work: a mutex around writing the pieces of a line to the  *)
(* stream's buffer, which the stream may pass on at any time, and a flush.      *)
(* Bug: "none", "nolock" (no mutex), "noflush", "lateflush" (after unlocking).  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, Calls, Bug

VARIABLES pc, k,     \* where each thread is; calls it has made
          lock, buf, file,
          begun, ret \* calls <<t, k>> begun, returned, in order
vars == <<pc, k, lock, buf, file, begun, ret>>
Init == /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 0]
        /\ lock = 0 /\ buf = <<>> /\ file = <<>> /\ begun = {} /\ ret = {}
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Call(t) == /\ pc[t] = "idle" /\ k[t] < Calls
           /\ k' = [k EXCEPT ![t] = @ + 1] /\ begun' = begun \cup {<<t, k[t] + 1>>}
           /\ Go(t, IF Bug = "nolock" THEN "text" ELSE "lock")
           /\ UNCHANGED <<lock, buf, file, ret>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Go(t, "text")
           /\ UNCHANGED <<k, buf, file, begun, ret>>
Put(t, x) == buf' = Append(buf, <<t, k[t], x>>)
Text(t) == /\ pc[t] = "text" /\ Put(t, "text") /\ Go(t, "nl")
           /\ UNCHANGED <<k, lock, file, begun, ret>>
Nl(t) == /\ pc[t] = "nl" /\ Put(t, "nl")
         /\ Go(t, CASE Bug = "lateflush" -> "unlock" [] Bug = "noflush" -> "unlock" [] OTHER -> "flush")
         /\ UNCHANGED <<k, lock, file, begun, ret>>
Pass == file' = file \o buf /\ buf' = <<>>
Flush(t) == /\ pc[t] = "flush" /\ Pass /\ Go(t, IF Bug \in {"nolock", "lateflush"} THEN "ret" ELSE "unlock")
            /\ UNCHANGED <<k, lock, begun, ret>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = 0
             /\ Go(t, IF Bug = "lateflush" THEN "flush" ELSE "ret")
             /\ UNCHANGED <<k, buf, file, begun, ret>>
Return(t) == /\ pc[t] = "ret" /\ ret' = ret \cup {<<t, k[t]>>} /\ Go(t, "idle")
             /\ UNCHANGED <<k, lock, buf, file, begun>>
\* The stream passes on any beginning of its buffer when it is full.
Spill == \E n \in 1..Len(buf) : /\ file' = file \o SubSeq(buf, 1, n)
                                /\ buf' = SubSeq(buf, n + 1, Len(buf))
                                /\ UNCHANGED <<pc, k, lock, begun, ret>>
Next == \/ \E t \in Threads : Call(t) \/ Lock(t) \/ Text(t) \/ Nl(t) \/ Flush(t) \/ Unlock(t) \/ Return(t)
        \/ Spill
Spec == Init /\ [][Next]_vars

\* What Sink.tla asks for at every moment.
Whole == \A j \in DOMAIN file :
           IF j % 2 = 1 THEN file[j][3] = "text"
           ELSE file[j][3] = "nl" /\ file[j][1] = file[j-1][1] /\ file[j][2] = file[j-1][2]
Once == \A j \in DOMAIN file : /\ <<file[j][1], file[j][2]>> \in begun
                               /\ \A i \in DOMAIN file : i # j => file[i] # file[j]
InFile(c) == \E j \in DOMAIN file : file[j] = <<c[1], c[2], "nl">>
There == \A c \in ret : InFile(c)
\* A call that began after another one returned comes later in the file.
Grows == [][SubSeq(file', 1, Len(file)) = file]_vars
=============================================================================
