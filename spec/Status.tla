------------------------------- MODULE Status -------------------------------
(* Status and StatusOr objects in slots (S01, S02).  Every call is one step;    *)
(* MustAbort says which calls trip an assertion in builds that have them.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Slots

VARIABLES sl,     \* slot -> object
          dead    \* an assertion has ended the program
svars == <<sl, dead>>
\* kind: "none", "st" (Status), "T", "P", "U" (StatusOr of a movable object, a
\* trivially copyable one, a unique_ptr, an int); out: "ok" (a success, its value for
\* StatusOr), "err" or "gone" (moved away); id: the value or the error
None == [kind |-> "none", out |-> "gone", id |-> 0, chk |-> TRUE]
Obj(k, o, i) == [kind |-> k, out |-> o, id |-> i, chk |-> FALSE]
OrKinds == {"T", "P", "U", "I"}
SInit == sl = [s \in Slots |-> None] /\ dead = FALSE

IsOr(s) == sl[s].kind \in OrKinds
Moved(s) == [sl[s] EXCEPT !.out = "gone", !.id = 0, !.chk = TRUE]
Checked(s) == [sl[s] EXCEPT !.chk = TRUE]

\* The calls a program may write (whether or not they assert).
Valid(e) ==
  CASE e.k \in {"ok", "err"} -> sl[e.s].kind = "none"
    [] e.k \in {"val", "verr"} -> sl[e.s].kind = "none" /\ e.t \in OrKinds
    [] e.k = "mv" -> sl[e.s].kind = "none" /\ sl[e.f].kind # "none" /\ sl[e.f].out # "gone"
                     /\ (e.t = sl[e.f].kind \/ (e.t \in OrKinds /\ sl[e.f].kind = "st"))
    [] e.k = "as" -> /\ e.s # e.f /\ sl[e.s].kind # "none" /\ sl[e.f].kind # "none" /\ sl[e.f].out # "gone"
                     /\ (sl[e.s].kind = sl[e.f].kind \/ (IsOr(e.s) /\ sl[e.f].kind = "st"))
    [] e.k = "asv" -> IsOr(e.s)
    [] e.k = "ase" -> sl[e.s].kind # "none"
    [] e.k = "take" -> sl[e.s].kind = "none" /\ IsOr(e.f) /\ sl[e.f].out # "gone"
    [] e.k = "takeas" -> sl[e.s].kind = "st" /\ IsOr(e.f) /\ sl[e.f].out # "gone"
    [] e.k \in {"q", "ig", "del"} -> sl[e.s].kind # "none"
    [] e.k = "get" -> sl[e.s].kind # "none" /\ sl[e.s].out # "gone"
                      /\ ~(sl[e.s].kind = "st" /\ sl[e.s].out = "ok" /\ sl[e.s].chk)
    [] e.k = "rd" -> IsOr(e.s) /\ sl[e.s].out # "gone"
    [] OTHER -> FALSE

MustAbort(e) ==
  CASE e.k \in {"ok", "err", "val", "verr", "q", "ig"} -> FALSE
    [] e.k = "mv" -> e.t # "st" /\ sl[e.f].kind = "st" /\ sl[e.f].out = "ok"
    [] e.k = "as" -> \/ ~sl[e.s].chk
                     \/ (sl[e.s].kind # "st" /\ sl[e.f].kind = "st" /\ sl[e.f].out = "ok")
    [] e.k \in {"asv", "ase", "del"} -> ~sl[e.s].chk
    [] e.k = "take" -> ~sl[e.f].chk \/ sl[e.f].out = "ok"
    [] e.k = "takeas" -> ~sl[e.f].chk \/ sl[e.f].out = "ok" \/ ~sl[e.s].chk
    [] e.k = "get" -> ~sl[e.s].chk \/ sl[e.s].out = "ok"
    [] e.k = "rd" -> ~sl[e.s].chk \/ sl[e.s].out = "err"

Put(s, o) == sl' = [sl EXCEPT ![s] = o]
Move(e, kind) == sl' = [sl EXCEPT ![e.s] = Obj(kind, sl[e.f].out, sl[e.f].id), ![e.f] = Moved(e.f)]
\* r: what the call answered, as far as it is determined
Do(e) ==
  CASE e.k = "ok" -> Put(e.s, Obj("st", "ok", 0))
    [] e.k = "err" -> Put(e.s, Obj("st", "err", e.v))
    [] e.k = "val" -> Put(e.s, Obj(e.t, "ok", e.v))
    [] e.k = "verr" -> Put(e.s, Obj(e.t, "err", e.v))
    [] e.k = "ase" -> Put(e.s, Obj(sl[e.s].kind, "err", e.v))
    [] e.k = "mv" -> Move(e, e.t)
    [] e.k = "as" -> Move(e, sl[e.s].kind)
    [] e.k = "asv" -> Put(e.s, Obj(sl[e.s].kind, "ok", e.v))
    [] e.k \in {"take", "takeas"} -> Move(e, "st")
    [] e.k \in {"q", "ig"} -> Put(e.s, Checked(e.s))
    [] e.k = "del" -> Put(e.s, None)
    [] e.k \in {"get", "rd"} -> UNCHANGED sl
Answer(e, r) ==
  CASE e.k = "q" -> sl[e.s].out = "gone" \/ r = (IF sl[e.s].out = "err" THEN 1 ELSE 0)
    [] e.k \in {"get", "rd"} -> r = sl[e.s].id
    [] OTHER -> TRUE
\* The values and errors that exist: exactly those that some slot holds.
Values(f) == {f[s].id : s \in {x \in Slots : f[x].kind \in {"T", "U"} /\ f[x].out = "ok"}}
Errors(f) == {f[s].id : s \in {x \in Slots : f[x].kind # "none" /\ f[x].out = "err"}}

\* The unchecked are exactly those that hold an outcome nobody looked at.
GoneChecked == \A s \in Slots : sl[s].out = "gone" => sl[s].chk
=============================================================================
