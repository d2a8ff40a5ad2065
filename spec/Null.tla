-------------------------------- MODULE Null --------------------------------
(* Never-null and nullable pointer wrappers over raw, unique and shared pointers *)
(* (M03).                                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Slots

\* A wrapper: w "N" (never null) or "L" (nullable), p "R", "U" or "S" (raw, unique,
\* shared), t the element type: D derived, B base, cB const base.  ck: it was
\* compared against null since its last assignment ("y", "n"; "any": not said).
VARIABLES sl, nid, dead
nvars == <<sl, nid, dead>>
RawObjs == {1, 2}                     \* objects that are always there
NoSlot == [w |-> "none", p |-> "-", t |-> "-", to |-> 0, ck |-> "n", moved |-> FALSE]
NInit == sl = [s \in Slots |-> NoSlot] /\ nid = 10 /\ dead = FALSE
Conv(a, b) == a = b \/ <<a, b>> \in {<<"D", "B">>, <<"D", "cB">>, <<"B", "cB">>}
Has(s) == sl[s].w # "none"
Whole(s) == Has(s) /\ ~sl[s].moved
FromSlot(e) == e.src \in {"copy", "move"}

\* Where a construction or assignment takes its value from.
ValidSrc(e, w, p, t) ==
  CASE e.src = "null" -> Conv(e.pt, t)
    [] e.src \in {"nullptr", "default"} -> w = "L"
    [] e.src = "ptr" -> Conv(e.pt, t) /\ (IF p = "R" THEN e.o \in RawObjs ELSE e.o = 0)
    [] FromSlot(e) -> /\ Whole(e.f) /\ sl[e.f].p = p /\ Conv(sl[e.f].t, t)
                      /\ (e.src = "copy" => p # "U") /\ (e.s = e.f => e.src = "copy")
    [] OTHER -> FALSE
Valid(e) ==
  CASE e.k = "ctor" -> ~Has(e.s) /\ e.w \in {"N", "L"} /\ e.p \in {"R", "U", "S"} /\ e.t \in {"D", "B", "cB"}
                       /\ (FromSlot(e) => e.s # e.f) /\ ValidSrc(e, e.w, e.p, e.t)
    [] e.k = "set" -> Has(e.s) /\ e.src # "default" /\ ValidSrc(e, sl[e.s].w, sl[e.s].p, sl[e.s].t)
    [] e.k = "isnull" -> Whole(e.s) /\ sl[e.s].w = "L"
    [] e.k = "cmp" -> Whole(e.s) /\ Whole(e.f) /\ (e.how = "lt" => sl[e.s].w = sl[e.f].w)
    [] e.k = "rawcmp" -> Whole(e.s)
    [] e.k \in {"get", "hash"} -> Whole(e.s)
    [] e.k = "deref" -> Whole(e.s) /\ (e.how \in {"at0", "at1"} => sl[e.s].p = "R" /\ sl[e.s].t = "D")
    [] e.k = "take" -> Whole(e.s) /\ sl[e.s].p # "R"
    [] e.k = "del" -> Has(e.s)
    [] OTHER -> FALSE

W(e) == IF e.k = "ctor" THEN e.w ELSE sl[e.s].w
P(e) == IF e.k = "ctor" THEN e.p ELSE sl[e.s].p
\* The value that comes in; a new object where nothing else is said.
New(e) == e.src = "ptr" /\ P(e) # "R"
In(e) == IF FromSlot(e) THEN sl[e.f].to ELSE IF e.src = "ptr" THEN (IF New(e) THEN nid + 1 ELSE e.o) ELSE 0
Unchecked(s, must) == sl[s].w = "L" /\ (sl[s].to = 0 \/ sl[s].ck = "n" \/ (~must /\ sl[s].ck = "any"))
Aborts(e, must) ==
  CASE e.k \in {"ctor", "set"} ->
         W(e) = "N" /\ (In(e) = 0 \/ (FromSlot(e) /\ Unchecked(e.f, must)))
    [] e.k = "deref" -> Unchecked(e.s, must)
    [] OTHER -> FALSE
MustAbort(e) == Aborts(e, TRUE)
MayAbort(e) == Aborts(e, FALSE)

Put(e, w, p, t, ck) ==
  sl' = LET x == [w |-> w, p |-> p, t |-> t, to |-> In(e), ck |-> ck, moved |-> FALSE]
        IN IF e.src = "move" THEN [sl EXCEPT ![e.s] = x, ![e.f].moved = TRUE] ELSE [sl EXCEPT ![e.s] = x]
SameType(e) == sl[e.f].w = e.w /\ sl[e.f].t = e.t
Do(e) ==
  /\ nid' = IF e.k \in {"ctor", "set"} /\ New(e) THEN nid + 1 ELSE nid
  /\ UNCHANGED dead
  /\ CASE e.k = "ctor" ->
            Put(e, e.w, e.p, e.t,
                IF FromSlot(e) /\ e.w = "L" /\ SameType(e) /\ sl[e.f].ck # "n" THEN "any" ELSE "n")
       [] e.k = "set" -> Put(e, sl[e.s].w, sl[e.s].p, sl[e.s].t, "n")
       [] e.k = "isnull" -> sl' = [sl EXCEPT ![e.s].ck = "y"]
       [] e.k = "rawcmp" -> sl' = IF e.o = 0 /\ sl[e.s].ck = "n" /\ sl[e.s].w = "L"
                                  THEN [sl EXCEPT ![e.s].ck = "any"] ELSE sl
       [] e.k = "take" -> sl' = [sl EXCEPT ![e.s].moved = TRUE]
       [] e.k = "del" -> sl' = [sl EXCEPT ![e.s] = NoSlot]
       [] OTHER -> UNCHANGED sl
Bit(b) == IF b THEN 1 ELSE 0
\* r: the result; truth: what the plain addresses say (order only).
Answer(e, r, truth) ==
  CASE e.k = "isnull" -> r = Bit((sl[e.s].to = 0) = (e.how \in {"eq", "req"}))
    [] e.k = "cmp" -> IF e.how = "lt" THEN r = truth
                      ELSE r = Bit((sl[e.s].to = sl[e.f].to) = (e.how = "eq"))
    [] e.k = "rawcmp" -> r = Bit((sl[e.s].to = e.o) = (e.how \in {"eq", "req"}))
    [] e.k = "get" -> r = sl[e.s].to
    [] e.k = "hash" -> r = 1
    [] e.k = "deref" -> r = sl[e.s].to + (IF e.how = "at1" THEN 1000 ELSE 0)
    [] e.k = "take" -> r = sl[e.s].to
    [] OTHER -> TRUE
Owned(m) == {m[s].to : s \in {x \in Slots : m[x].w # "none" /\ ~m[x].moved /\ m[x].p # "R"}} \ {0}
\* One unique wrapper at most for each object; a never-null wrapper is not null.
Sound == /\ \A s \in Slots : sl[s].w = "N" => sl[s].to # 0
         /\ \A a, b \in Slots : (a # b /\ Whole(a) /\ Whole(b) /\ sl[a].p = "U" /\ sl[a].to # 0) => sl[a].to # sl[b].to
=============================================================================
