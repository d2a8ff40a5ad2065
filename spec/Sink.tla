------------------------------- MODULE Sink ---------------------------------
(* A file sink as its callers and the readers of the file see it (L02).        *)
(* Contents are numbered; `lines` is the file as the sequence of the contents   *)
(* of its lines (what it held when the sink was made is left out).              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,    \* how the sink is made: kind, openable, size of each line, quota
          st,     \* "none", "new", "made", "failed", "gone"
          in,     \* thread -> content of its call, 0: none
          begun,  \* content -> number of log calls begun
          done,   \* content -> number of log calls returned
          lines,  \* content -> number of whole lines in the file
          tail    \* contents one of which an unfinished line at the end begins
vars == <<cfg, st, in, begun, done, lines, tail>>

Init == /\ st = "none" /\ cfg = <<>> /\ in = <<>>
        /\ begun = <<>> /\ done = <<>> /\ lines = <<>> /\ tail = {}

New(kind, openable, size, quota) ==
  /\ st = "none" /\ st' = "new"
  /\ cfg' = [kind |-> kind, openable |-> openable, size |-> size, quota |-> quota]
  /\ LET z == [m \in 1..Len(size) |-> 0] IN begun' = z /\ done' = z /\ lines' = z
  /\ tail' = {} /\ in' = <<>>
\* A file that cannot be opened is reported.
Made(ok, err) ==
  /\ st = "new" /\ ok = cfg.openable
  /\ IF ok THEN st' = "made" ELSE st' = "failed" /\ err = "log"
  /\ UNCHANGED <<cfg, in, begun, done, lines, tail>>
InCall(t) == t \in DOMAIN in /\ in[t] # 0
Call(t, m) ==
  /\ st = "made" /\ ~InCall(t)
  /\ in' = [x \in DOMAIN in \cup {t} |-> IF x = t THEN m ELSE in[x]]
  /\ begun' = [begun EXCEPT ![m] = @ + 1]
  /\ UNCHANGED <<cfg, st, done, lines, tail>>
Count(seq, m) == Cardinality({k \in DOMAIN seq : seq[k] = m})
\* The file has grown by whole lines, each of one call, and at most the
\* beginning of another one.
See(same, new, tl) ==
  /\ st = "made" /\ same
  /\ \A k \in DOMAIN new : new[k] \in DOMAIN lines
  /\ lines' = [m \in DOMAIN lines |-> lines[m] + Count(new, m)]
  /\ \A m \in DOMAIN lines : lines'[m] <= begun[m]
  /\ tail' = {tl[k] : k \in DOMAIN tl}
  /\ tail' # {} => \E m \in tail' : m \in DOMAIN lines /\ lines'[m] < begun[m]
  /\ UNCHANGED <<cfg, st, in, begun, done>>
\* When the call returns its line is there, and it was the call's own: there are
\* as many as there are calls returned.
Ret(t, m) ==
  /\ st = "made" /\ InCall(t) /\ in[t] = m
  /\ in' = [in EXCEPT ![t] = 0]
  /\ done' = [done EXCEPT ![m] = @ + 1]
  /\ lines[m] >= done'[m]
  /\ UNCHANGED <<cfg, st, begun, lines, tail>>
RECURSIVE Total(_)
Total(m) == IF m = 0 THEN 0 ELSE begun[m] * cfg.size[m] + Total(m - 1)
\* Only a file that cannot take what was logged makes a call abort.
Abort == /\ st = "made" /\ \E t \in DOMAIN in : in[t] # 0
         /\ Total(Len(cfg.size)) > cfg.quota
         /\ st' = "gone" /\ UNCHANGED <<cfg, in, begun, done, lines, tail>>
AllThere == lines = begun /\ tail = {}
\* The sink closes the file exactly if it is its own.
Gone(closed) ==
  /\ st = "made" /\ \A t \in DOMAIN in : in[t] = 0
  /\ closed = IF cfg.kind = "keep" THEN 0 ELSE 1
  /\ UNCHANGED vars
Fin == /\ st \in {"made", "failed"}
       /\ st = "made" => AllThere /\ \A t \in DOMAIN in : in[t] = 0
       /\ st' = "gone" /\ UNCHANGED <<cfg, in, begun, done, lines, tail>>

Step(e) == CASE e.op = "new"  -> New(e.kind, e.openable, e.size, e.quota)
             [] e.op = "made" -> Made(e.ok, e.err)
             [] e.op = "call" -> Call(e.t, e.m)
             [] e.op = "see"  -> See(e.same, e.new, e.tail)
             [] e.op = "ret"  -> Ret(e.t, e.m)
             [] e.op = "abort" -> Abort
             [] e.op = "gone" -> Gone(e.closed)
             [] e.op = "fin"  -> Fin
             [] OTHER -> FALSE
=============================================================================
