------------------------------- MODULE Files --------------------------------
(* What a process doing file operations may do to a directory, seen from       *)
(* outside at every moment.                                                    *)
(*                                                                             *)
(* The directory is a function from names to contents; a name outside its      *)
(* domain is absent.  Contents are compared only for equality.  Held are the   *)
(* files that readers have open: each former content of a destination.         *)
(* Enf: the properties that are enforced.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Enf
VARIABLES fs,    \* the directory
          held,  \* the files that readers keep open
          call   \* process -> its call, or <<>>
Vars == <<fs, held, call>>

Must(id, x) == id \in Enf => x
Get(f, n) == IF n \in DOMAIN f THEN f[n] ELSE "none"
Idle(p) == IF p \in DOMAIN call THEN call[p] = <<>> ELSE TRUE
Set(p, c) == [q \in DOMAIN call \cup {p} |-> IF q = p THEN c ELSE call[q]]

Init(f, h) == fs = f /\ held = h /\ call = <<>>

\* fn: "important", "write" or "read" the file dest.  env: "ok", or the kind of
\* error that the surroundings make unavoidable.
Call(p, fn, dest, data, want, env) ==
  /\ Idle(p)
  /\ call' = Set(p, [fn |-> fn, dest |-> dest, data |-> data, want |-> want, env |-> env,
                     com |-> Get(fs, dest) = data,      \* the new content has been there
                     did |-> FALSE,                     \* p has put it there
                     seen |-> {Get(fs, dest)},          \* contents since the call
                     hard |-> FALSE, kinds |-> {},      \* failures so far
                     temps |-> {}, noclean |-> FALSE])
  /\ UNCHANGED <<fs, held>>

\* A system call of p fails; hard: for good.
Fault(p, at, hard) ==
  LET c == call[p]
      kind == IF at = "open" THEN "open" ELSE "file"
  IN /\ ~Idle(p)
     /\ call' = Set(p, IF at = "unlink" THEN [c EXCEPT !.noclean = TRUE]
                       ELSE IF c.hard THEN c
                       ELSE [c EXCEPT !.hard = hard, !.kinds = @ \cup {kind}])
     /\ UNCHANGED <<fs, held>>

\* Somebody else creates the file n, just when p is about to.
Decoy(p, n, f, h) ==
  /\ n \notin DOMAIN fs /\ n \in DOMAIN f /\ f = [x \in DOMAIN fs \cup {n} |-> IF x = n THEN f[n] ELSE fs[x]]
  /\ fs' = f /\ held' = h
  /\ call' = Set(p, [call[p] EXCEPT !.kinds = @ \cup {"open"}])

\* p makes the directory f and the open files h.
Change(p, f, h) ==
  LET names == DOMAIN fs \cup DOMAIN f
      changed == {n \in names : Get(fs, n) # Get(f, n)}
      c == call[p]
      new == {n \in changed : n \notin DOMAIN fs}
      watched == [q \in DOMAIN call |->
                    IF call[q] = <<>> THEN <<>>
                    ELSE [call[q] EXCEPT !.seen = @ \cup {Get(f, call[q].dest)},
                                         !.temps = IF q = p THEN @ ELSE @ \ changed,
                                         !.com = @ \/ Get(f, call[q].dest) = call[q].data]]
  IN IF changed = {}
     THEN /\ fs' = f /\ held' = h /\ call' = call
          /\ \/ \E q \in DOMAIN call : ~Idle(q) /\ call[q].fn = "write"
             \/ Must("F01", \A n \in DOMAIN held : n \in DOMAIN h /\ h[n] = held[n])
     ELSE /\ ~Idle(p)
          /\ fs' = f /\ held' = h
          /\ c.fn = "important" =>
               \* The destination changes once, to the whole new content, and
               \* whoever has it open keeps what it had.
               /\ Must("F01", /\ c.dest \in changed => ~c.did /\ Get(f, c.dest) = c.data
                              /\ \A n \in DOMAIN held : n \in DOMAIN h /\ h[n] = held[n])
               \* Besides it p touches only files of its own.
               /\ Must("F03", changed \subseteq c.temps \cup new \cup {c.dest})
          /\ call' = [watched EXCEPT ![p] = [@ EXCEPT !.temps = @ \cup (new \ {c.dest}),
                                                    !.did = @ \/ c.dest \in changed]]

\* p's call returns.
Return(p, ok, kind, data) ==
  LET c == call[p]
      id == IF c.fn = "read" THEN "F04" ELSE "F02"
  IN /\ ~Idle(p)
     /\ IF ok
        THEN /\ Must(id, ~c.hard /\ c.env = "ok")
             /\ c.fn = "important" => Must("F02", c.com)
             /\ c.fn = "write" => Must("F02", Get(fs, c.dest) = c.data)
             /\ c.fn = "read" => /\ Must("F04", IF c.want # "" THEN data = c.want ELSE data \in c.seen)
                                 /\ Must("F01", c.want = "" => data \in c.seen)
        ELSE Must(id, kind \in c.kinds \cup ({c.env} \ {"ok"}))
     /\ c.fn = "important" => Must("F03", c.noclean \/ c.temps \cap DOMAIN fs = {})
     /\ call' = Set(p, <<>>)
     /\ UNCHANGED <<fs, held>>

\* p is killed; whatever it had created may stay.
Kill(p) == call' = Set(p, <<>>) /\ UNCHANGED <<fs, held>>
=============================================================================
