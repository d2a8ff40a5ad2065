-------------------------------- MODULE Guid --------------------------------
(* Version 4 GUIDs as sequences of characters (G01).                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Low == {"a", "b", "c", "d", "e", "f"}
Up == {"A", "B", "C", "D", "E", "F"}
Dashes == {9, 14, 19, 24}
Free == (1..36) \ (Dashes \cup {15, 20})
Form(s, hex, variant) ==
  /\ Len(s) = 36
  /\ \A p \in Dashes : s[p] = "-"
  /\ s[15] = "4" /\ s[20] \in variant
  /\ \A p \in Free : s[p] \in hex
IsValid(s) == Form(s, Dig \cup Low \cup Up, {"8", "9", "a", "b", "A", "B"})
IsOutput(s) == Form(s, Dig \cup Low, {"8", "9", "a", "b"})
=============================================================================
