--------------------------------- MODULE Help --------------------------------
(* Placeholder functions, explicit copies, wrapped pointers (M04): variables with  *)
(* functions, with values, and with owned objects.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Vars
VARIABLES fn,    \* what function a variable holds
          val,   \* the content of a value
          raw,   \* objects that nobody owns yet (0: none)
          own,   \* objects owned by wrappers
          made   \* how many objects there have been
hvars == <<fn, val, raw, own, made>>
HInit == /\ fn = [x \in Vars |-> "empty"] /\ val = [x \in Vars |-> <<>>]
         /\ raw = [x \in Vars |-> 0] /\ own = [x \in Vars |-> 0] /\ made = 0
Live == ({raw[x] : x \in Vars} \cup {own[x] : x \in Vars}) \ {0}
\* Stops: the program does not survive it, with assertions.
Stops(e) == e.k = "wrap" /\ raw[e.x] = 0
Do(e) ==
  CASE e.k = "null" -> fn' = [fn EXCEPT ![e.x] = "empty"] /\ UNCHANGED <<val, raw, own, made>>
    [] e.k = "nothing" -> fn' = [fn EXCEPT ![e.x] = "nothing"] /\ UNCHANGED <<val, raw, own, made>>
    [] e.k = "real" -> fn' = [fn EXCEPT ![e.x] = "real"] /\ UNCHANGED <<val, raw, own, made>>
    [] e.k = "copyfn" -> fn' = [fn EXCEPT ![e.y] = fn[e.x]] /\ UNCHANGED <<val, raw, own, made>>
    [] e.k = "call" -> fn[e.x] # "empty" /\ UNCHANGED hvars
    [] e.k = "clone" -> val' = [val EXCEPT ![e.y] = val[e.x]] /\ UNCHANGED <<fn, raw, own, made>>
    [] e.k = "grow" -> val' = [val EXCEPT ![e.x] = Append(@, e.y)] /\ UNCHANGED <<fn, raw, own, made>>
    [] e.k = "clear" -> val' = [val EXCEPT ![e.x] = <<>>] /\ UNCHANGED <<fn, raw, own, made>>
    [] e.k = "new" -> /\ raw[e.x] = 0 /\ raw' = [raw EXCEPT ![e.x] = made + 1] /\ made' = made + 1
                      /\ UNCHANGED <<fn, val, own>>
    [] e.k = "wrap" -> /\ raw[e.x] # 0 /\ own' = [own EXCEPT ![e.y] = raw[e.x]] /\ raw' = [raw EXCEPT ![e.x] = 0]
                       /\ UNCHANGED <<fn, val, made>>
    [] e.k = "drop" -> own' = [own EXCEPT ![e.x] = 0] /\ UNCHANGED <<fn, val, raw, made>>
    [] OTHER -> FALSE
\* What calling x does: how often the function behind it ran.
Ran(e) == IF e.k = "call" /\ fn[e.x] = "real" THEN 1 ELSE 0
=============================================================================
