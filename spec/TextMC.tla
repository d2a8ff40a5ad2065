------------------------------- MODULE TextMC -------------------------------
EXTENDS Text, Json
CONSTANTS Emit, Alphabet, MaxLen, MaxArgs, SimDepth
VARIABLES f, obs
tvars == <<f, obs>>
Arg(t, v) == [t |-> t, v |-> v]
\* Argument lists of n elements.
Plain(n) == [x \in 1..n |-> Arg("sv", <<"A", "BB", "CCC", "DDDD", "E", "F", "G">>[x])]
Braces(n) == [x \in 1..n |-> Arg("str", <<"{}", "", "}", "{", "}}{{", "{}", "">>[x])]
Mixed(n) == [x \in 1..n |-> <<Arg("i64", "-9223372036854775808"), Arg("bool", "0"), Arg("cstr", "%s{}"), Arg("char", "}"),
                              Arg("u64", "18446744073709551615"), Arg("bool", "1"), Arg("sv", "")>>[x]]
Lists == UNION {{Plain(n), Braces(n), Mixed(n)} : n \in 0..MaxArgs}
MInit == f = <<>> /\ obs = "init"
MNext == Len(f) < MaxLen /\ \E c \in Alphabet : f' = Append(f, c) /\ UNCHANGED obs
Sound == \A a \in Lists : Agrees(f, a)
\* One line per format: what is to be called.
MEmit == Emit => PrintT("@S" \o ToJson([f |-> f, a |-> {[l |-> a, ok |-> Formatted(f, a).ok] : a \in
           {x \in Lists : Formatted(f, x).ok \/ x = Braces(Len(x)) \/ (Len(x) = MaxArgs /\ x = Plain(Len(x)))}}]))

\* Long formats out of tokens, with arguments that match or nearly so; lists to
\* concatenate.
Ints == {Arg("i8", "-128"), Arg("i8", "127"), Arg("u8", "255"), Arg("i16", "-32768"), Arg("i16", "32767"), Arg("u16", "65535"),
         Arg("i32", "-2147483648"), Arg("i32", "2147483647"), Arg("i32", "0"), Arg("i32", "-1"), Arg("u32", "4294967295"), Arg("u32", "0"),
         Arg("long", "-9223372036854775808"), Arg("long", "10"), Arg("ulong", "18446744073709551615"),
         Arg("i64", "9223372036854775807"), Arg("i64", "-9223372036854775808"), Arg("i64", "0"),
         Arg("u64", "18446744073709551615"), Arg("u64", "9"), Arg("u64", "10000000000000000000"), Arg("i64", "-1000000000000000000")}
Others == {Arg("bool", "0"), Arg("bool", "1"), Arg("char", "x"), Arg("char", "{"), Arg("char", "NUL"),
           Arg("ei8", "-128"), Arg("eu8", "200"), Arg("e32", "-7"), Arg("eu64", "18446744073709551615"), Arg("old", "3"),
           Arg("dbl", "0.5"), Arg("dbl", "1e+300"), Arg("dbl", "-1.79769e+308"), Arg("flt", "-2.5"), Arg("ldbl", "100000"),
           Arg("dbl", "inf"), Arg("ldbl", "-inf"), Arg("dbl", "-0"), Arg("flt", "3.4028235e+38"), Arg("flt", "0.1"),
           Arg("ldbl", "-1.1897314e+4932"), Arg("dbl", "1.234567e-300")}
   \cup {Arg(t, v) : t \in {"flt", "dbl", "ldbl"}, v \in {"123456789", "0.0001234567", "0.00001234567", "999999.5", "1000000",
                                                        "-123456.4", "3.14159265358979"}}
Strs == {Arg(t, v) : t \in {"sv", "str"}, v \in {"", "q", "LONG", "NULS", "15 characters..", "sixteen letters."}}
   \cup {Arg("cstr", ""), Arg("cstr", "c string"), Arg("cstr", "LONG"), Arg("nncstr", "not null"), Arg("nncstr", ""), Arg("sv", "nodata")}
All == Ints \cup Others \cup Strs
Kinds == <<Ints, Others, Strs>>
Pick == \E k \in {RandomElement(1..3)} : \E a \in {RandomElement(Kinds[k])} : f' = Append(f, a)
SInit == f = <<>> /\ obs = <<>>
\* Lists of arguments, of all lengths up to a random one.
CNext == /\ Len(obs) >= 0
         /\ \E n \in {RandomElement(1..7)} :
              IF n = 7 \/ Len(f) = 12 THEN obs' = Append(obs, f) /\ f' = <<>> ELSE Pick /\ UNCHANGED obs
CEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs))
\* All lists of up to MaxLen arguments.
PNext == Len(f) < MaxLen /\ \E a \in All : f' = Append(f, a) /\ UNCHANGED obs
PEmit == PrintT("@S" \o ToJson(f))
Toks == <<<<"{", "}">>, <<"{", "{">>, <<"}", "}">>, <<"a">>, <<" ">>, <<"%">>, <<"{", "}">>, <<"\\">>, <<"n">>>>
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
RandomArgs(n) == [x \in 1..n |-> LET k == RandomElement(1..3) IN RandomElement(Kinds[k])]
FNext == /\ Len(obs) >= 0
         /\ \E n \in {RandomElement(1..14)} : \E t \in {RandomElement(1..Len(Toks))} : \E m \in {RandomElement(1..60)} :
              IF n = 14 \/ Len(f) > 40
              THEN \E a \in {RandomArgs(Places(CHOOSE c \in Cuts(f) : TRUE))} :
                     /\ obs' = IF Len(a) <= 6 THEN Append(obs, [f |-> f, l |-> a]) ELSE obs
                     /\ f' = <<>>
              ELSE f' = f \o Toks[t] /\ UNCHANGED obs
=============================================================================
