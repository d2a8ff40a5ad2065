------------------------------- MODULE Logger -------------------------------
(* Loggers, the global one and its threshold (L01).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Loggers,
          Debug          \* the build has debug macros
VARIABLES lv,      \* threshold of each logger, 0 (everything) to 6 (off); -1: there is none
          glob,    \* the global logger; 0: none yet
          call     \* the log call under way: what the sink is still to get
lvars == <<lv, glob, call>>
NoCall == [text |-> "-", to |-> 0, left |-> 0, fatal |-> FALSE, on |-> FALSE]
LInit == lv = [l \in Loggers |-> -1] /\ glob = 0 /\ call = NoCall
Name == <<"DEBUG", "INFO", "WARNING", "ERROR", "FATAL">>
Text(e) == "[" \o Name[e.v] \o ":" \o e.file \o "(" \o ToString(e.line) \o ")] " \o e.msg
Vias == {"call", "macro", "dmacro"}
Valid(e) ==
  /\ ~call.on
  /\ CASE e.k = "make" -> lv[e.l] = -1
       [] e.k = "destroy" -> lv[e.l] # -1 /\ glob # e.l
       [] e.k = "level" -> lv[e.l] # -1 /\ e.v \in 0..6
       [] e.k = "global" -> lv[e.l] # -1
       [] e.k = "log" -> glob # 0 /\ e.v \in 1..5 /\ e.via \in Vias
       [] OTHER -> FALSE
Emits(e) == e.v >= lv[glob] /\ (e.via = "dmacro" => Debug)
Other == [NoCall EXCEPT !.on = TRUE]
Do(e) ==
  CASE e.k = "make" -> lv' = [lv EXCEPT ![e.l] = 0] /\ call' = Other /\ UNCHANGED glob
    [] e.k = "destroy" -> lv' = [lv EXCEPT ![e.l] = -1] /\ call' = Other /\ UNCHANGED glob
    [] e.k = "level" -> lv' = [lv EXCEPT ![e.l] = e.v] /\ call' = Other /\ UNCHANGED glob
    [] e.k = "global" -> glob' = e.l /\ call' = Other /\ UNCHANGED lv
    [] OTHER -> /\ UNCHANGED <<lv, glob>>
                /\ call' = IF Emits(e) THEN [text |-> Text(e), to |-> glob, left |-> 1, fatal |-> e.v = 5, on |-> TRUE]
                           ELSE Other
\* The sink gets its line.
Line(l, text) == /\ call.on /\ call.left = 1 /\ l = call.to /\ text = call.text
                 /\ call' = [call EXCEPT !.left = 0] /\ UNCHANGED <<lv, glob>>
Done == call.on /\ call.left = 0 /\ ~call.fatal /\ call' = NoCall /\ UNCHANGED <<lv, glob>>
\* The end of the process.
Abort == call.on /\ call.left = 0 /\ call.fatal /\ UNCHANGED lvars
Sound == (call.on /\ call.to # 0) => lv[call.to] # -1
=============================================================================
