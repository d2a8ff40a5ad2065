-------------------------------- MODULE Prefs -------------------------------
(* Preferences (P01): registered paths with a type and a default, and what was  *)
(* set on them.  Values are opaque names.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Paths     \* path numbers

VARIABLES open, store, reg, val, dead
pvars == <<open, store, reg, val, dead>>

\* Paths as their segments.
PathTable == <<
  <<"a">>, <<"b">>, <<"ab">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "c">>, <<"a", "b", "d">>, <<"b", "a">>,
  <<"">>, <<"", "">>, <<"a", "">>, <<"", "a">>, <<"a", "", "b">>, <<"a b", "NUL">>, <<"a b", "UTF">>,
  <<"LONG", "LONG", "LONG">>, <<"A">>, <<"a", "B">>, <<"a", "b", "c", "d", "e", "f", "g", "h">>, <<"a", "bb">>,
  <<"LONG", "LONG", "LONG2">> >>
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Clash(p, q) == p # q /\ (Prefix(PathTable[p], PathTable[q]) \/ Prefix(PathTable[q], PathTable[p]))

Types == {"bool", "int", "dbl", "str", "arr", "obj"}
IntNames == {"0", "-1", "7", "2147483647", "-2147483648"}
ValuesOf(t) ==
  CASE t = "bool" -> {"true", "false"}
    [] t = "int" -> IntNames
    [] t = "dbl" -> {"0.5", "-1e300", "4294967296", "7"}
    [] t = "str" -> {"", "s", "long", "nul"}
    [] t = "arr" -> {"[]", "[1]", "[[s],{}]"}
    [] OTHER -> {"{}", "{x:1}", "{a:{b:2}}"}
Num(t) == t \in {"int", "dbl"}
Like(t, u) == t = u \/ (Num(t) /\ Num(u))
NoReg == <<"none", "-">>
NoVal == <<"none", "-">>

PInit == open = FALSE /\ store = "-" /\ reg = [p \in Paths |-> NoReg] /\ val = [p \in Paths |-> NoVal] /\ dead = FALSE
Reg(p) == reg[p] # NoReg
Valid(e) ==
  CASE e.k = "open" -> ~open /\ e.t \in {"memory", "flat"} /\ (store # "-" => e.t = store)
    [] e.k = "close" -> open
    [] e.k = "reg" -> /\ open /\ e.t \in Types /\ e.v \in ValuesOf(e.t)
                      \* What is stored already was registered with that type.
                      /\ \A q \in Paths : (Clash(e.p, q) => ~Reg(q) /\ val[q] = NoVal)
                      /\ val[e.p] # NoVal => val[e.p][1] = e.t
    [] e.k = "set" -> open /\ e.t \in Types /\ e.v \in ValuesOf(e.t)
    [] e.k = "get" -> open /\ e.t \in Types
    [] OTHER -> FALSE
Now(p) == IF val[p] # NoVal THEN val[p][2] ELSE reg[p][2]
IsInt(n) == n \in IntNames
MustAbort(e) ==
  CASE e.k = "reg" -> Reg(e.p)
    [] e.k = "set" -> ~Reg(e.p) \/ ~Like(e.t, reg[e.p][1])
    [] e.k = "get" -> ~Reg(e.p) \/ ~Like(e.t, reg[e.p][1])
                      \/ (e.t = "int" /\ ~(IsInt(Now(e.p)) /\ IsInt(reg[e.p][2])))
    [] OTHER -> FALSE
\* Whether an int and a double preference are of different types is not said.
MayAbort(e) == MustAbort(e) \/ (e.k \in {"set", "get"} /\ Reg(e.p) /\ e.t # reg[e.p][1])
Do(e) ==
  /\ UNCHANGED dead
  /\ CASE e.k = "open" -> open' = TRUE /\ store' = e.t /\ UNCHANGED <<reg, val>>
       [] e.k = "close" -> /\ open' = FALSE /\ reg' = [p \in Paths |-> NoReg] /\ UNCHANGED store
                           /\ val' = IF store = "flat" THEN val ELSE [p \in Paths |-> NoVal]
       [] e.k = "reg" -> reg' = [reg EXCEPT ![e.p] = <<e.t, e.v>>] /\ UNCHANGED <<open, store, val>>
       [] e.k = "set" -> val' = [val EXCEPT ![e.p] = <<e.t, e.v>>] /\ UNCHANGED <<open, store, reg>>
       [] OTHER -> UNCHANGED <<open, store, reg, val>>
Answer(e, r) == e.k = "get" => r = Now(e.p)
Sound == \A p, q \in Paths : Reg(p) /\ Reg(q) => ~Clash(p, q)
=============================================================================
