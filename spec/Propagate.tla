------------------------------ MODULE Propagate -----------------------------
(* Functions whose steps wrap calls in the propagation macros (S03).            *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Checks   \* the build has assertions

VARIABLES stack,  \* frames of the functions being executed, innermost first
          fin     \* <<>>, or the outcome that the outermost caller has got
vars == <<stack, fin>>
\* A frame: n steps, pos of them done, m the macro of the current step ("" when
\* none is being evaluated), res its outcome
Frame(n) == [n |-> n, pos |-> 0, m |-> "", res |-> <<>>]
Ok(id) == <<"ok", id>>
Er(id) == <<"err", id>>
Init == stack = <<>> /\ fin = <<>>

Top == stack[1]
SetTop(f) == <<f>> \o Tail(stack)
\* A function has come out with res: an error ends every function that has
\* wrapped the call in a macro, up to one that looks at the outcome itself.
RECURSIVE Settle(_, _)
Settle(st, res) ==
  IF st = <<>> THEN <<<<>>, res>>
  ELSE IF res[1] = "err" /\ st[1].m # "catch" THEN Settle(Tail(st), res)
  ELSE <<<<[st[1] EXCEPT !.res = res]>> \o Tail(st), <<>>>>
Come(st, res) == LET x == Settle(st, res) IN stack' = x[1] /\ fin' = x[2]

\* The next step begins: it is the one after the last, and just once.
Next1(at, m) == stack # <<>> /\ Top.m = "" /\ Top.pos < Top.n /\ at = Top.pos + 1
Begin(at, m) == IF stack = <<>> THEN <<>> ELSE SetTop([Top EXCEPT !.m = m])
Enter(n, at, m) ==
  /\ fin = <<>>
  /\ IF stack = <<>> THEN at = 0 ELSE Next1(at, m)
  /\ stack' = <<Frame(n)>> \o Begin(at, m) /\ UNCHANGED fin
Eval(at, m, res) == fin = <<>> /\ Next1(at, m) /\ Come(Begin(at, m), res)
\* The macro let the function go on; v: the variable's content.
Pass(at, v) ==
  /\ stack # <<>> /\ Top.m \notin {"", "catch"} /\ Top.res # <<>> /\ Top.res[1] = "ok"
  /\ at = Top.pos + 1
  /\ v = IF Top.m = "try" THEN 0 ELSE Top.res[2]
  /\ stack' = SetTop([Top EXCEPT !.m = "", !.res = <<>>, !.pos = @ + 1]) /\ UNCHANGED fin
Caught(at, res) ==
  /\ stack # <<>> /\ Top.m = "catch" /\ Top.res = res /\ at = Top.pos + 1
  /\ stack' = SetTop([Top EXCEPT !.m = "", !.res = <<>>, !.pos = @ + 1]) /\ UNCHANGED fin
Leave(res) ==
  /\ stack # <<>> /\ Top.m = "" /\ Top.pos = Top.n /\ res[1] = "ok"
  /\ Come(Tail(stack), res)
\* The outermost caller looks at the outcome, or destroys it without.
Got(res) == stack = <<>> /\ fin = res /\ fin' = <<"seen", 0>> /\ UNCHANGED stack
Drop == stack = <<>> /\ fin # <<>> /\ fin[1] \in {"ok", "err"} /\ fin' = <<"drop", 0>> /\ UNCHANGED stack
Abort == Checks /\ fin # <<>> /\ fin[1] = "drop" /\ UNCHANGED vars
End == /\ fin # <<>> /\ (fin[1] = "seen" \/ (fin[1] = "drop" /\ ~Checks)) /\ UNCHANGED vars

Step(e) == CASE e.op = "enter"  -> Enter(e.n, e.at, e.m)
             [] e.op = "eval"   -> Eval(e.at, e.m, e.res)
             [] e.op = "pass"   -> Pass(e.at, e.v)
             [] e.op = "caught" -> Caught(e.at, e.res)
             [] e.op = "leave"  -> Leave(e.res)
             [] e.op = "got"    -> Got(e.res)
             [] e.op = "drop"   -> Drop
             [] e.op = "abort"  -> Abort
             [] e.op = "end"    -> End
             [] OTHER -> FALSE
=============================================================================
