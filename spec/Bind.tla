-------------------------------- MODULE Bind --------------------------------
(* Callbacks bound to weak references (M02).                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Places, Cbs

VARIABLES tg,    \* place -> target there: kind W (weak base) or S (shared), incarnation, owners
          cb,    \* callback -> what it was made of
          st,    \* calls under way, innermost last
          inc,   \* incarnations so far
          var    \* a variable that some callbacks are bound to by reference
bvars == <<tg, cb, st, inc, var>>

NoTarget == [kind |-> "none", inc |-> 0, own |-> 0]
NoCb == [form |-> "none", via |-> "-", to |-> 0, bi |-> "-", bs |-> "-", moved |-> FALSE]
BInit == /\ tg = [o \in Places |-> NoTarget] /\ cb = [c \in Cbs |-> NoCb]
         /\ st = <<>> /\ inc = 0 /\ var = "v0"

\* What the function gets: bound integer and string, call-time x and y.
Forms == {"m0", "m2", "mv", "const", "base", "lam", "fun", "ftor", "ph", "swap", "uptr", "mo", "ref", "long", "nest"}
Args(b, x, y, v) ==
  CASE b.form = "m0" -> <<>>
    [] b.form \in {"m2", "const", "base", "lam", "fun", "ftor"} -> <<b.bi, b.bs>>
    [] b.form = "mv" -> <<b.bs, b.bi>>
    [] b.form = "ph" -> <<b.bi, x, b.bs, y>>
    [] b.form = "swap" -> <<y, b.bs, x>>
    [] b.form = "uptr" -> <<b.bi, x>>
    [] b.form = "mo" -> <<b.bs, b.bi>>
    [] b.form = "ref" -> <<v, b.bi>>
    [] b.form = "long" -> <<b.bi, b.bs, b.bi, x, y, x, b.bs>>
    [] b.form = "nest" -> <<b.bs, b.bi>>
Copies(b) == b.form # "mo"

\* A shared target that is being called stays.
Held(k) == \E n \in DOMAIN st : st[n].ph \in {"wait", "in"} /\ st[n].to = k
Here(o) == tg[o].kind # "none"
Stays(o) == Here(o) /\ (tg[o].own > 0 \/ (tg[o].kind = "S" /\ Held(tg[o].inc)))
Alive(k) == \E o \in Places : tg[o].inc = k /\ k # 0 /\ Stays(o)
\* Callbacks that are being called are left alone.
Busy(c) == \E n \in DOMAIN st : st[n].ph \in {"wait", "in", "no", "out"} /\ st[n].c = c

Valid(e) ==
  CASE e.k = "make" -> ~Here(e.o) /\ e.t \in {"W", "S"}
    [] e.k = "own" -> Here(e.o) /\ tg[e.o].kind = "S" /\ tg[e.o].own = 1
    [] e.k = "disown" -> Here(e.o) /\ tg[e.o].own > 0
    [] e.k = "bind" -> Here(e.o) /\ tg[e.o].own > 0 /\ ~Busy(e.c) /\ e.form \in Forms
                       /\ (e.form = "mo" => e.via = "raw")
    [] e.k = "copy" -> /\ cb[e.f].form # "none" /\ ~cb[e.f].moved /\ Copies(cb[e.f]) /\ ~Busy(e.c) /\ e.c # e.f
    [] e.k = "move" -> cb[e.f].form # "none" /\ ~cb[e.f].moved /\ ~Busy(e.c) /\ ~Busy(e.f) /\ e.c # e.f
    [] e.k = "drop" -> cb[e.c].form # "none" /\ ~Busy(e.c)
    [] e.k = "var" -> TRUE
    [] e.k = "call" -> cb[e.c].form # "none" /\ ~cb[e.c].moved
    [] OTHER -> FALSE

Push(ph, c, o, a) == st' = Append(st, [ph |-> ph, c |-> c, to |-> o, args |-> a])
Plain == Push("op", 0, 0, <<>>)
Do(e) ==
  CASE e.k = "make" -> /\ tg' = [tg EXCEPT ![e.o] = [kind |-> e.t, inc |-> inc + 1, own |-> 1]]
                       /\ inc' = inc + 1 /\ Plain /\ UNCHANGED <<cb, var>>
    [] e.k = "own" -> tg' = [tg EXCEPT ![e.o].own = @ + 1] /\ Plain /\ UNCHANGED <<cb, inc, var>>
    [] e.k = "disown" -> tg' = [tg EXCEPT ![e.o].own = @ - 1] /\ Plain /\ UNCHANGED <<cb, inc, var>>
    [] e.k = "bind" -> /\ cb' = [cb EXCEPT ![e.c] = [form |-> e.form, via |-> e.via, to |-> tg[e.o].inc,
                                                     bi |-> e.bi, bs |-> e.bs, moved |-> FALSE]]
                       /\ Plain /\ UNCHANGED <<tg, inc, var>>
    [] e.k = "copy" -> cb' = [cb EXCEPT ![e.c] = cb[e.f]] /\ Plain /\ UNCHANGED <<tg, inc, var>>
    [] e.k = "move" -> /\ cb' = [cb EXCEPT ![e.c] = cb[e.f], ![e.f].moved = TRUE]
                       /\ Plain /\ UNCHANGED <<tg, inc, var>>
    [] e.k = "drop" -> cb' = [cb EXCEPT ![e.c] = NoCb] /\ Plain /\ UNCHANGED <<tg, inc, var>>
    [] e.k = "var" -> var' = e.x /\ Plain /\ UNCHANGED <<tg, cb, inc>>
    [] e.k = "call" -> /\ Push(IF Alive(cb[e.c].to) THEN "wait" ELSE "no", e.c, cb[e.c].to,
                               Args(cb[e.c], e.x, e.y, var))
                       /\ UNCHANGED <<tg, cb, inc, var>>

Top == st[Len(st)]
Phase(ph) == st' = [st EXCEPT ![Len(st)].ph = ph]
Enter == /\ st # <<>> /\ Top.ph = "wait" /\ Phase("in") /\ UNCHANGED <<tg, cb, inc, var>>
Exit == /\ st # <<>> /\ Top.ph = "in" /\ Phase("out") /\ UNCHANGED <<tg, cb, inc, var>>
\* A target goes with its last owner, or at the end of the last call to it.
Die(o) == /\ Here(o) /\ ~Stays(o) /\ tg' = [tg EXCEPT ![o] = NoTarget] /\ UNCHANGED <<cb, st, inc, var>>
Done == /\ st # <<>> /\ Top.ph \in {"op", "no", "out"}
        /\ \A o \in Places : Here(o) => Stays(o)
        /\ st' = SubSeq(st, 1, Len(st) - 1) /\ UNCHANGED <<tg, cb, inc, var>>

\* A function runs on a target that is there when it is entered; a shared one
\* is there all through.
Sound == \A n \in DOMAIN st : st[n].ph \in {"wait", "in"} =>
           ((st[n].ph = "wait" \/ \E o \in Places : tg[o].inc = st[n].to /\ tg[o].kind = "S") => Alive(st[n].to))
=============================================================================
