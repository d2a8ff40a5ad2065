-------------------------------- MODULE Weak --------------------------------
(* Objects that come and go at few addresses, and weak pointers to them (M01).   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Addrs, Ptrs

VARIABLES ob,    \* address -> <<class, incarnation>>, <<"none", 0>>: nothing there
          wp,    \* weak pointer -> its static type, target and how sure that is
          inc,   \* incarnations so far
          cr     \* crowds: many copies of one weak pointer, made at once; their targets
wvars == <<ob, wp, inc, cr>>
\* Static types: B base, cB const base, D derived, cD const derived, M an object
\* whose weak base is not its first, P that first base.  Classes: B, D, M.
Types == {"B", "cB", "D", "cD", "M", "P"}
Conv(s, d) == \/ s = d \/ <<s, d>> \in {<<"B", "cB">>, <<"D", "B">>, <<"D", "cB">>, <<"D", "cD">>,
                                       <<"cD", "cB">>, <<"M", "B">>, <<"M", "cB">>, <<"M", "P">>}
\* What can be obtained from an object directly.
Gets(c) == {"B", "cB"} \cup (IF c = "D" THEN {"D", "cD"} ELSE IF c = "M" THEN {"M"} ELSE {})

NoPtr == [ty |-> "none", to |-> 0, moved |-> FALSE]
WInit == ob = [a \in Addrs |-> <<"none", 0>>] /\ wp = [p \in Ptrs |-> NoPtr] /\ inc = 0 /\ cr = <<>>

Alive(k) == k # 0 /\ \E a \in Addrs : ob[a][2] = k
Ptr(t, k) == [ty |-> t, to |-> k, moved |-> FALSE]
Put(p, x) == wp' = [wp EXCEPT ![p] = x]
\* A moved-from weak pointer is null or still what it was.
From(e, t) == wp' = [wp EXCEPT ![e.p] = [ty |-> t, to |-> wp[e.f].to, moved |-> wp[e.f].moved],
                               ![e.f].moved = IF e.how = "move" THEN TRUE ELSE @]
Valid(e) ==
  CASE e.k = "make" -> ob[e.a][1] = "none" /\ e.t \in {"B", "D", "M"}
    [] e.k = "kill" -> ob[e.a][1] # "none"
    [] e.k = "get" -> ob[e.a][1] # "none" /\ e.t \in Gets(ob[e.a][1])
                      /\ (wp[e.p].ty = "none" \/ wp[e.p].ty = e.t)
    [] e.k = "null" -> e.t \in Types /\ wp[e.p].ty = "none"
    [] e.k = "reset" -> wp[e.p].ty # "none"
    [] e.k = "drop" -> wp[e.p].ty # "none"
    [] e.k = "new" -> wp[e.p].ty = "none" /\ wp[e.f].ty # "none" /\ e.t \in Types /\ Conv(wp[e.f].ty, e.t)
    [] e.k = "set" -> e.p # e.f /\ wp[e.p].ty # "none" /\ wp[e.f].ty # "none" /\ Conv(wp[e.f].ty, wp[e.p].ty)
    \* e.a copies of p are made, and kept; all such copies go.
    [] e.k = "crowd" -> wp[e.p].ty # "none" /\ ~wp[e.p].moved /\ e.a > 0
    [] e.k = "disperse" -> cr # <<>>
    [] OTHER -> FALSE
Do1(e) ==
  CASE e.k = "make" -> ob' = [ob EXCEPT ![e.a] = <<e.t, inc + 1>>] /\ inc' = inc + 1 /\ UNCHANGED wp
    [] e.k = "kill" -> ob' = [ob EXCEPT ![e.a] = <<"none", 0>>] /\ UNCHANGED <<wp, inc>>
    [] e.k = "get" -> Put(e.p, Ptr(e.t, ob[e.a][2])) /\ UNCHANGED <<ob, inc>>
    [] e.k = "null" -> Put(e.p, Ptr(e.t, 0)) /\ UNCHANGED <<ob, inc>>
    [] e.k = "reset" -> Put(e.p, Ptr(wp[e.p].ty, 0)) /\ UNCHANGED <<ob, inc>>
    [] e.k = "drop" -> Put(e.p, NoPtr) /\ UNCHANGED <<ob, inc>>
    [] e.k = "new" -> From(e, e.t) /\ UNCHANGED <<ob, inc>>
    [] e.k = "set" -> From(e, wp[e.p].ty) /\ UNCHANGED <<ob, inc>>
    [] e.k \in {"crowd", "disperse"} -> UNCHANGED <<ob, inc, wp>>
Do(e) == Do1(e) /\ cr' = CASE e.k = "crowd" -> Append(cr, wp[e.p].to) [] e.k = "disperse" -> <<>> [] OTHER -> cr
\* What a weak pointer may yield: an incarnation, or 0 for null.
Yields(p) == LET t == IF Alive(wp[p].to) THEN wp[p].to ELSE 0
             IN IF wp[p].moved THEN {0, t} ELSE {t}
\* What the members of a crowd yield.
CrowdYields(g) == IF Alive(cr[g]) THEN cr[g] ELSE 0
\* No weak pointer can yield an object that is not there.
Sound == \A p \in Ptrs : wp[p].ty # "none" => \A k \in Yields(p) : k = 0 \/ Alive(k)
=============================================================================
