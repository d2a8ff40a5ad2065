------------------------------- MODULE GuidMC -------------------------------
(* Strings around the valid form, each with what is said about it.              *)
EXTENDS Guid, Json
CONSTANTS Depth, Bases, Few
VARIABLES s, n
gvars == <<s, n>>
Base == <<
  <<"2","1","a","b","d","9","7","f","-","7","3","e","8","-","4","b","8","8","-","9","3","8","9","-","a","9","f","e","e","6","a","b","d","a","5","e">>,
  <<"0","0","0","0","0","0","0","0","-","0","0","0","0","-","4","0","0","0","-","8","0","0","0","-","0","0","0","0","0","0","0","0","0","0","0","0">>,
  <<"F","F","f","F","F","f","F","F","-","F","f","F","F","-","4","F","F","f","-","B","F","F","F","-","f","F","F","F","F","F","F","F","F","F","F","F">> >>
Chars == IF Few THEN {"-", "g", "0", "A", "b", "7"}
         ELSE {"-", "0", "9", "4", "5", "3", "8", "7", "c", "a", "b", "f", "g", "A", "B", "C", "F", "G", "/", ":", "@", "`", " ", "NUL", "HIGH", "x", "{"}
Ins(x, p, c) == SubSeq(x, 1, p - 1) \o <<c>> \o SubSeq(x, p, Len(x))
Del(x, p) == SubSeq(x, 1, p - 1) \o SubSeq(x, p + 1, Len(x))
MInit == n = 0 /\ s \in {Base[b] : b \in Bases} \cup (IF Few THEN {} ELSE {<<>>, <<"-">>})
MNext == /\ n < Depth /\ n' = n + 1
         /\ \/ \E p \in DOMAIN s : \E c \in Chars : s' = [s EXCEPT ![p] = c]
            \/ \E p \in 1..Len(s) + 1 : \E c \in {"-", "0", "a", "NUL"} : s' = Ins(s, p, c)
            \/ \E p \in DOMAIN s : s' = Del(s, p)
            \/ \E p \in DOMAIN s : s' = SubSeq(s, 1, p - 1)
            \/ \E p \in 1..Len(s) - 1 : s' = [s EXCEPT ![p] = s[p + 1], ![p + 1] = s[p]]
            \/ s' = s \o s
View == s
\* What is written is valid, and valid strings differ from it by case at most.
Sound == IsOutput(s) => IsValid(s)
MEmit == PrintT("@S" \o ToJson(s))
=============================================================================
