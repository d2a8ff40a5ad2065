-------------------------------- MODULE Rtti --------------------------------
(* Error classes, objects and type tests (S04).                                  *)
(* Class 0 is the common base.  1-3 are the library's (file error, file open      *)
(* error, log error), the others the driver's.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Parent == << 0, 1, 0, 0, 4, 5, 6, 7, 4, 9, 1, 11, 0, 4, 6 >>
Classes == 0..Len(Parent)
RECURSIVE Up(_)
Up(c) == IF c = 0 THEN {0} ELSE {c} \cup Up(Parent[c])
IsA(c, d) == d \in Up(c)

VARIABLES obj   \* slot -> class of the error in it, 100: none
Init == obj = [s \in 1..3 |-> 100]
\* An error is made (by the program, or reported by a library call of kind c).
Make(s, c) == c \in Classes \ {0} /\ obj' = [obj EXCEPT ![s] = c]
\* It travels: a chain of moves and assignments of status objects.
Travel(s, f) == obj[f] # 100 /\ obj' = [obj EXCEPT ![s] = obj[f], ![f] = IF s = f THEN @ ELSE 100]
\* res[d+1]: what every form of test against class d answered: 0 no, 1 yes (a
\* cast: the same object), anything else: a cast yields another object.
\* stat: classes the forms with a statically narrower pointer apply to.
Test(s, e) ==
  /\ obj[s] # 100
  /\ \A d \in Classes : LET want == IF IsA(obj[s], d) THEN 1 ELSE 0
                        IN \A x \in DOMAIN e.res[d + 1] : e.res[d + 1][x] = want
  /\ \A d \in Classes : e.exact[d + 1] = IF d = obj[s] THEN 1 ELSE 0
  /\ UNCHANGED obj
Step(e) == CASE e.op = "make" -> Make(e.s, e.c)
             [] e.op = "travel" -> Travel(e.s, e.f)
             [] e.op = "test" -> Test(e.s, e)
             [] OTHER -> FALSE
\* The relation is the reflexive transitive closure of the declared one.
Closure == \A c \in Classes : IsA(c, c) /\ IsA(c, 0)
            /\ (c # 0 => Up(c) = {c} \cup Up(Parent[c]))
            /\ \A d, e \in Classes : IsA(c, d) /\ IsA(d, e) => IsA(c, e)
ASSUME Closure
=============================================================================
