-------------------------------- MODULE Strong ------------------------------
(* Variables of a strong type (K02): each holds a value of the underlying type,    *)
(* holds one that was moved away, or does not exist.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Kind   \* what the underlying type is
VARIABLES sl
Vals == 0..5
Gone == -1      \* does not exist
Moved == -2     \* exists, with an unspecified value
SInit == sl = [s \in Slots |-> Gone]
Is(s) == sl[s] >= 0
Exists(s) == sl[s] # Gone
\* The order of the underlying type: total, that of floating-point numbers (two
\* zeros, one unordered value), or that of pairs.
Num == <<0, 0, 15, 99, -90, 7>>
X(v) == v % 3
Y(v) == v \div 3
Eq(a, b) == CASE Kind = "double" -> a # 3 /\ b # 3 /\ Num[a + 1] = Num[b + 1]
              [] OTHER -> a = b
Lt(a, b) == CASE Kind = "double" -> a # 3 /\ b # 3 /\ Num[a + 1] < Num[b + 1]
              [] Kind = "pair" -> a # b /\ X(a) <= X(b) /\ Y(a) <= Y(b)
              [] OTHER -> a < b
Le(a, b) == Lt(a, b) \/ Eq(a, b)
Compared(a, b) == <<Eq(a, b), ~Eq(a, b), Lt(a, b), Le(a, b), Lt(b, a), Le(b, a)>>
Ordered == Kind # "pair" /\ Kind # "double"

Set(s, v) == sl' = [sl EXCEPT ![s] = v]
\* A variable may take part in a move with itself: its value is unspecified then.
Shift(d, s) == sl' = [sl EXCEPT ![s] = Moved, ![d] = IF d = s THEN Moved ELSE sl[s]]
Op(e) ==
  CASE e.k = "default" -> ~Exists(e.d) /\ Set(e.d, 0)
    [] e.k \in {"fromcopy", "frommove"} -> ~Exists(e.d) /\ Set(e.d, e.v)
    [] e.k = "copy" -> ~Exists(e.d) /\ Is(e.s) /\ Set(e.d, sl[e.s])
    [] e.k = "move" -> ~Exists(e.d) /\ Is(e.s) /\ Shift(e.d, e.s)
    [] e.k = "assign" -> Exists(e.d) /\ Is(e.s) /\ Set(e.d, sl[e.s])
    [] e.k = "massign" -> Exists(e.d) /\ Is(e.s) /\ Shift(e.d, e.s)
    [] e.k = "swap" -> Is(e.d) /\ Is(e.s) /\ sl' = [sl EXCEPT ![e.d] = sl[e.s], ![e.s] = sl[e.d]]
    [] e.k = "convert" -> Is(e.s) /\ ~Exists(e.d) /\ Set(e.d, sl[e.s])
    [] e.k = "destroy" -> Exists(e.d) /\ Set(e.d, Gone)
    [] OTHER -> FALSE
\* How often the underlying value is copied.
Copies(k) == CASE k \in {"fromcopy", "copy", "assign", "convert"} -> 1 [] OTHER -> 0
Live == {s \in Slots : Is(s)}
Content == {sl[s] : s \in Live}
=============================================================================
