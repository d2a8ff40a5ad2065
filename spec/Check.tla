-------------------------------- MODULE Check -------------------------------
(* Programs of contract statements (K01).  The statements being executed, the     *)
(* innermost last: evaluating a condition may execute statements of its own.      *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Checks   \* the build has assertions
VARIABLES open, gone
cvars == <<open, gone>>
Contracts == {"check", "dcheck", "notreached"}
Hints == {"likely", "unlikely", "likelyeq"}
CInit == open = <<>> /\ gone = FALSE
Top == open[Len(open)]
SetTop(s) == open' = [open EXCEPT ![Len(open)].st = s] /\ UNCHANGED gone
Pop == open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED gone
\* A statement is executed next where nothing else is, or while a condition is evaluated.
Begin(k, m, v) == /\ ~gone /\ (IF open = <<>> THEN TRUE ELSE Top.st = "evaluating")
                  /\ open' = Append(open, [k |-> k, m |-> m, v |-> v, st |-> "begun"]) /\ UNCHANGED gone
Looks(m) == m \in Hints \cup {"check"} \/ (m = "dcheck" /\ Checks)
\* The condition is evaluated, once.
Eval(k) == /\ ~gone /\ open # <<>> /\ Top.k = k /\ Top.st = "begun" /\ Looks(Top.m) /\ SetTop("evaluating")
Value(k) == /\ ~gone /\ open # <<>> /\ Top.k = k /\ Top.st = "evaluating" /\ SetTop("evaluated")
\* Execution goes on behind the statement; a hint yields the value.
Past(k, got) == /\ ~gone /\ open # <<>> /\ Top.k = k
                /\ CASE Top.m \in Hints -> Top.st = "evaluated" /\ got = Top.v
                     [] Looks(Top.m) -> Top.st = "evaluated" /\ Top.v # "no"
                     [] OTHER -> ~Checks /\ Top.st = "begun"
                /\ Pop
\* The program is stopped at once.
Fails == open # <<>> /\ CASE Top.m = "notreached" -> Checks /\ Top.st = "begun"
                          [] Top.m \in Contracts -> Top.st = "evaluated" /\ Top.v = "no"
                          [] OTHER -> FALSE
Abort == ~gone /\ Fails /\ gone' = TRUE /\ UNCHANGED open
End == ~gone /\ open = <<>> /\ UNCHANGED cvars
=============================================================================
