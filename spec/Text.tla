-------------------------------- MODULE Text --------------------------------
(* String formatting and concatenation (R01, R02).  A format is a sequence of    *)
(* characters; an argument a type and what is written for its value.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* The text of an argument.
\* Numbers with a fraction have six significant digits.
Rounded == <<<<"123456789", "1.23457e+08">>, <<"0.0001234567", "0.000123457">>, <<"0.00001234567", "1.23457e-05">>,
             <<"999999.5", "1e+06">>, <<"1000000", "1e+06">>, <<"-123456.4", "-123456">>, <<"-1.1897314e+4932", "-1.18973e+4932">>,
             <<"1.234567e-300", "1.23457e-300">>, <<"3.4028235e+38", "3.40282e+38">>, <<"3.14159265358979", "3.14159">>>>
Real(v) == LET R == {x \in 1..Len(Rounded) : Rounded[x][1] = v}
           IN IF R = {} THEN v ELSE Rounded[CHOOSE x \in R : TRUE][2]
ArgText(a) == CASE a.t = "bool" -> (IF a.v = "1" THEN "true" ELSE "false")
                [] a.t \in {"flt", "dbl", "ldbl"} -> Real(a.v)
                [] OTHER -> a.v         \* decimal integers, characters, strings
RECURSIVE Cat(_)
Cat(args) == IF args = <<>> THEN "" ELSE ArgText(args[1]) \o Cat(Tail(args))

\* The scan of f from x on, y arguments used; "" ends; <<>>: it asserts.
Bad == [ok |-> FALSE, text |-> ""]
RECURSIVE Scan(_, _, _, _, _)
Scan(f, x, args, y, out) ==
  IF x > Len(f) THEN (IF y = Len(args) THEN [ok |-> TRUE, text |-> out] ELSE Bad)
  ELSE LET n == IF x < Len(f) THEN f[x + 1] ELSE "end"
       IN IF f[x] = "{"
          THEN IF n = "}" THEN (IF y < Len(args) THEN Scan(f, x + 2, args, y + 1, out \o ArgText(args[y + 1])) ELSE Bad)
               ELSE IF n = "{" THEN Scan(f, x + 2, args, y, out \o "{") ELSE Bad
          ELSE IF f[x] = "}" THEN (IF n = "}" THEN Scan(f, x + 2, args, y, out \o "}") ELSE Bad)
          ELSE Scan(f, x + 1, args, y, out \o f[x])
Formatted(f, args) == Scan(f, 1, args, 0, "")

\* The same said without a scan: a format is a sequence of tokens.
Tokens == {<<"{", "}">>, <<"{", "{">>, <<"}", "}">>}
\* All ways to cut f into tokens and ordinary characters.
RECURSIVE Cuts(_)
Cuts(f) ==
  IF f = <<>> THEN {<<>>}
  ELSE (IF f[1] \notin {"{", "}"} THEN {<<<<f[1]>>>> \o c : c \in Cuts(Tail(f))} ELSE {})
       \cup (IF Len(f) > 1 /\ SubSeq(f, 1, 2) \in Tokens
             THEN {<<SubSeq(f, 1, 2)>> \o c : c \in Cuts(SubSeq(f, 3, Len(f)))} ELSE {})
Places(c) == Cardinality({x \in DOMAIN c : c[x] = <<"{", "}">>})
RECURSIVE Fill(_, _)
Fill(c, args) ==
  IF c = <<>> THEN ""
  ELSE IF c[1] = <<"{", "}">> THEN ArgText(args[1]) \o Fill(Tail(c), Tail(args))
  ELSE c[1][1] \o Fill(Tail(c), args)
\* At most one cut, and the scan finds it.
Agrees(f, args) ==
  LET C == {c \in Cuts(f) : Places(c) = Len(args)}
      s == Formatted(f, args)
  IN /\ Cardinality(Cuts(f)) <= 1
     /\ s.ok = (C # {})
     /\ \A c \in C : s.text = Fill(c, args)
=============================================================================
