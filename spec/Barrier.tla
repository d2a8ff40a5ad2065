------------------------------- MODULE Barrier ------------------------------
(* What users of barriers see (property T08): calls, returns, quiescence.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES n,      \* barrier -> initial count
          begun,  \* barrier -> count-downs that have begun
          in      \* thread -> <<barrier, kind>> of its call, or <<>>
vars == <<n, begun, in>>
Kinds == {"down", "downwait", "wait"}
Init == n = <<>> /\ begun = <<>> /\ in = <<>>

New(b, c) == /\ b = Len(n) + 1
             /\ n' = Append(n, c) /\ begun' = Append(begun, 0) /\ UNCHANGED in
Upd(t, v) == in' = [x \in DOMAIN in \cup {t} |-> IF x = t THEN v ELSE in[x]]
Call(t, b, k) ==
  /\ b \in DOMAIN n /\ k \in Kinds
  /\ t \in DOMAIN in => in[t] = <<>>
  /\ Upd(t, <<b, k>>)
  /\ begun' = IF k = "wait" THEN begun ELSE [begun EXCEPT ![b] = @ + 1]
  /\ UNCHANGED n
Open(b) == begun[b] >= n[b]
Ret(t, b, k) ==
  /\ t \in DOMAIN in /\ in[t] = <<b, k>>
  /\ k # "down" => Open(b)
  /\ Upd(t, <<>>) /\ UNCHANGED <<n, begun>>
\* Every thread is blocked.
Idle == /\ \A t \in DOMAIN in : in[t] # <<>> => in[t][2] # "down" /\ ~Open(in[t][1])
        /\ UNCHANGED vars
Fin == (\A t \in DOMAIN in : in[t] = <<>>) /\ UNCHANGED vars

Step(e) == CASE e.op = "new"  -> New(e.b, e.n)
             [] e.op = "call" -> Call(e.t, e.b, e.k)
             [] e.op = "ret"  -> Ret(e.t, e.b, e.k)
             [] e.op = "idle" -> Idle
             [] e.op = "fin"  -> Fin
             [] OTHER -> FALSE
=============================================================================
