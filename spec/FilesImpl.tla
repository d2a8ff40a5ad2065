------------------------------ MODULE FilesImpl -----------------------------
(* How an important-file write works: a new private file, its content, close,  *)
(* rename over the destination, removal after a failure.  Every system call    *)
(* may fail for good, or the process be killed instead of it; somebody else    *)
(* may take the temporary name first.  Checked for N concurrent writers of one *)
(* destination against what Files.tla demands; the complete histories are      *)
(* printed and replayed on the real code.                                      *)
(* Bug selects a broken variant, to see that the properties can fail.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxFaults, Bug, Emit
P == 1..N
VARIABLES fs, ino, pc, res, nfault, h, init
\* fs: name -> file number (0: absent); names: "d" and one temporary name per
\* writer, "k": somebody else's file.  ino: file number -> content: Old, Keep, or
\* <<p, written part>>.
vars == <<fs, ino, pc, res, nfault, h, init>>
T(p) == IF Bug = "sharedtmp" THEN "t" ELSE "t" \o ToString(p)
Names == {"d", "k", "t"} \cup {"t" \o ToString(p) : p \in P}
Full(p) == <<p, 2>>
Old == <<0, 1>>
Keep == <<0, 2>>
F(p) == 10 + p      \* the file number p creates

Init == /\ init \in {"old", "none"}
        /\ fs = [n \in Names |-> IF n = "k" THEN 2 ELSE IF n = "d" /\ init = "old" THEN 1 ELSE 0]
        /\ ino = [x \in 1..20 |-> IF x = 1 THEN Old ELSE IF x = 2 THEN Keep ELSE <<0, -1>>]
        /\ pc = [p \in P |-> "call"] /\ res = [p \in P |-> "none"]
        /\ nfault = 0 /\ h = <<>>

Log(p, at, act) == h' = Append(h, [p |-> p, at |-> at, act |-> act])
To(p, l) == pc' = [pc EXCEPT ![p] = l]
Ret(p, r) == pc' = [pc EXCEPT ![p] = "done"] /\ res' = [res EXCEPT ![p] = r]
Same == UNCHANGED <<fs, ino, init>>
File(p) == IF Bug = "inplace" THEN "d" ELSE T(p)
At(p) == fs[File(p)]

Call(p) == /\ pc[p] = "call" /\ To(p, "open") /\ Log(p, "call", "ok")
           /\ Same /\ UNCHANGED <<res, nfault>>
\* pc -> the system call that comes next.
Sys(p) == pc[p] \in {"open", "write", "close", "rename", "unlink"}

Ok(p) ==
  /\ Sys(p) /\ Log(p, pc[p], "ok") /\ UNCHANGED <<nfault, init>>
  /\ CASE pc[p] = "open" ->
            IF At(p) # 0 /\ Bug # "noexcl" /\ Bug # "inplace"
            THEN Ret(p, "open") /\ UNCHANGED <<fs, ino>>
            ELSE LET x == IF At(p) # 0 THEN At(p) ELSE F(p)
                 IN /\ fs' = [fs EXCEPT ![File(p)] = x]
                    /\ ino' = [ino EXCEPT ![x] = <<p, 0>>]
                    /\ To(p, "write") /\ UNCHANGED res
       [] pc[p] = "write" -> /\ ino' = IF At(p) = 0 THEN ino ELSE [ino EXCEPT ![At(p)] = Full(p)]
                             /\ To(p, "close")
                             /\ UNCHANGED <<fs, res>>
       [] pc[p] = "close" -> /\ IF Bug = "inplace" THEN Ret(p, "ok") ELSE To(p, "rename") /\ UNCHANGED res
                             /\ UNCHANGED <<fs, ino>>
       [] pc[p] = "rename" -> /\ IF At(p) = 0 THEN Ret(p, "file") /\ UNCHANGED fs
                                 ELSE /\ fs' = [fs EXCEPT !["d"] = At(p), ![File(p)] = 0]
                                      /\ Ret(p, "ok")
                              /\ UNCHANGED ino
       [] pc[p] = "unlink" -> /\ fs' = [fs EXCEPT ![File(p)] = 0] /\ Ret(p, "file") /\ UNCHANGED ino
Fail(p) ==
  /\ Sys(p) /\ nfault < MaxFaults /\ nfault' = nfault + 1
  /\ Log(p, pc[p], "err") /\ Same
  /\ CASE pc[p] = "open" -> Ret(p, "open")
       [] pc[p] \in {"write", "close"} ->
            IF Bug = "ignore" THEN To(p, "rename") /\ UNCHANGED res
            ELSE IF Bug = "noremove" THEN Ret(p, "file")
            ELSE To(p, "unlink") /\ UNCHANGED res
       [] pc[p] = "rename" -> To(p, "unlink") /\ UNCHANGED res
       [] pc[p] = "unlink" -> Ret(p, "file left")
KillAt(p) ==
  /\ Sys(p) /\ nfault < MaxFaults /\ nfault' = nfault + 1
  /\ Log(p, pc[p], "kill") /\ Same /\ Ret(p, "killed")
\* The temporary name becomes another name of "k".
Decoy(p) ==
  /\ pc[p] = "open" /\ nfault < MaxFaults /\ nfault' = nfault + 1
  /\ Bug # "inplace" /\ fs[T(p)] = 0
  /\ IF Bug = "noexcl"
     THEN /\ fs' = [fs EXCEPT ![T(p)] = 2] /\ ino' = [ino EXCEPT ![2] = <<p, 0>>]
          /\ To(p, "write") /\ UNCHANGED res
     ELSE fs' = [fs EXCEPT ![T(p)] = 2] /\ UNCHANGED ino /\ Ret(p, "decoy")
  /\ Log(p, "open", "decoy") /\ UNCHANGED init
Next == \E p \in P : Call(p) \/ Ok(p) \/ Fail(p) \/ KillAt(p) \/ Decoy(p)
Spec == Init /\ [][Next]_vars

Begun == {p \in P : pc[p] # "call"}
\* F01
Atomic == IF fs["d"] = 0 THEN init = "none"
          ELSE ino[fs["d"]] \in (IF init = "old" THEN {Old} ELSE {}) \cup {Full(p) : p \in Begun}
\* F01: who reads the old file sees no change of it.
OldIntact == ino[1] = Old
\* F02
Success == \A p \in P : res[p] = "ok" => fs["d"] # 0 /\ ino[fs["d"]] \in {Full(q) : q \in Begun}
Spurious == \A p \in P : res[p] \in {"open", "file"} => nfault > 0
\* F03
Others == fs["k"] = 2 /\ ino[2] = Keep
NoLeft == \A p \in P : res[p] \in {"ok", "open", "file"} /\ Bug # "sharedtmp" => fs[T(p)] = 0

Emitted == IF Emit /\ (\A p \in P : pc[p] = "done") THEN PrintT("@H" \o ToJson([i |-> init, h |-> h])) ELSE TRUE
=============================================================================
