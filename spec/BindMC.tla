------------------------------- MODULE BindMC -------------------------------
(* Bind with the internal steps taken at once, for scripts: an operation, a call *)
(* that is entered (its body follows), and "ret" at the end of a body.           *)
EXTENDS Bind, Json
CONSTANTS Emit, MaxInc, SimDepth, FormSet, Kinds, Vias, Ints, Strs, MaxDepth
VARIABLES obs
Op(k, o, c, f, t, form, via, bi, bs, x, y) ==
  [k : k, o : o, c : c, f : f, t : t, form : form, via : via, bi : bi, bs : bs, x : x, y : y]
N == {"-"}
Ops == Op({"make"}, Places, {0}, {0}, Kinds, N, N, N, N, N, N)
  \cup Op({"own", "disown"}, Places, {0}, {0}, N, N, N, N, N, N, N)
  \cup Op({"bind"}, Places, Cbs, {0}, N, FormSet, Vias, Ints, Strs, N, N)
  \cup Op({"copy", "move"}, {0}, Cbs, Cbs, N, N, N, N, N, N, N)
  \cup Op({"drop"}, {0}, Cbs, {0}, N, N, N, N, N, N, N)
  \cup (IF "ref" \in FormSet THEN Op({"var"}, {0}, {0}, {0}, N, N, N, N, N, Strs, N) ELSE {})
  \cup Op({"call"}, {0}, Cbs, {0}, N, N, N, N, N, Ints, Strs)
  \cup Op({"ret"}, {0}, {0}, {0}, N, N, N, N, N, N, N)
MInit == BInit /\ obs = [k |-> "init"]
Holds(k, s) == \E n \in DOMAIN s : s[n].ph = "in" /\ s[n].to = k
Settle(t, s) == [o \in Places |-> IF t[o].own > 0 \/ (t[o].kind = "S" /\ Holds(t[o].inc, s)) THEN t[o] ELSE NoTarget]
Macro(e) ==
  IF e.k = "ret"
  THEN LET s == SubSeq(st, 1, Len(st) - 1)
       IN st # <<>> /\ st' = s /\ tg' = Settle(tg, s) /\ UNCHANGED <<cb, inc, var>>
  ELSE IF ~Valid(e) THEN FALSE
  ELSE CASE e.k = "call" ->
              /\ Len(st) < MaxDepth
              /\ IF Alive(cb[e.c].to)
                 THEN st' = Append(st, [ph |-> "in", c |-> e.c, to |-> cb[e.c].to, args |-> <<>>])
                 ELSE st' = st
              /\ UNCHANGED <<tg, cb, inc, var>>
         [] e.k = "disown" -> /\ tg' = Settle([tg EXCEPT ![e.o].own = @ - 1], st)
                              /\ UNCHANGED <<cb, st, inc, var>>
         [] e.k = "own" -> tg' = [tg EXCEPT ![e.o].own = @ + 1] /\ UNCHANGED <<cb, st, inc, var>>
         [] e.k = "make" -> /\ tg' = [tg EXCEPT ![e.o] = [kind |-> e.t, inc |-> inc + 1, own |-> 1]]
                            /\ inc' = inc + 1 /\ UNCHANGED <<cb, st, var>>
         [] e.k = "var" -> var' = e.x /\ UNCHANGED <<tg, cb, st, inc>>
         [] OTHER -> /\ cb' = CASE e.k = "bind" ->
                                     [cb EXCEPT ![e.c] = [form |-> e.form, via |-> e.via, to |-> tg[e.o].inc,
                                                          bi |-> e.bi, bs |-> e.bs, moved |-> FALSE]]
                                [] e.k = "copy" -> [cb EXCEPT ![e.c] = cb[e.f]]
                                [] e.k = "move" -> [cb EXCEPT ![e.c] = cb[e.f], ![e.f].moved = TRUE]
                                [] e.k = "drop" -> [cb EXCEPT ![e.c] = NoCb]
                     /\ UNCHANGED <<tg, st, inc, var>>
MNext == \E e \in Ops : (e.k = "make" => inc < MaxInc) /\ Macro(e) /\ obs' = e
MEmit == Emit => PrintT("@E" \o ToJson([s |-> ToString(bvars), t |-> ToString(bvars'), op |-> obs',
                                        i |-> (obs.k = "init")]))
MView == bvars
\* The steps one by one.
FInit == BInit /\ obs = [k |-> "init"]
FNext == /\ \/ \E e \in Ops \ Op({"ret"}, {0}, {0}, {0}, N, N, N, N, N, N, N) :
                 /\ IF st = <<>> THEN TRUE ELSE Top.ph = "in"
                 /\ Len(st) < MaxDepth /\ (e.k = "make" => inc < MaxInc) /\ Valid(e) /\ Do(e)
            \/ Enter \/ Exit \/ Done \/ \E o \in Places : Die(o)
         /\ UNCHANGED obs
H(e) == obs' = [k |-> "hist", h |-> IF obs.k = "init" THEN <<e>> ELSE Append(obs.h, e)]
ByKind == [k \in {e.k : e \in Ops} |-> {e \in Ops : e.k = k}]
Okay(e) == IF e.k = "ret" THEN st # <<>>
           ELSE Valid(e) /\ (e.k = "call" => Len(st) < MaxDepth)
SNext == /\ inc >= 0
         /\ \E k \in {RandomElement(DOMAIN ByKind)} : \E e \in {RandomElement(ByKind[k])} :
              IF Okay(e) /\ (k \in {"drop", "move"} => RandomElement(1..4) = 1) THEN Macro(e) /\ H(e)
              ELSE UNCHANGED bvars /\ obs' = IF obs.k = "init" THEN [k |-> "hist", h |-> <<>>] ELSE obs
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
=============================================================================
