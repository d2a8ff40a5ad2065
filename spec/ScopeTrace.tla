------------------------------ MODULE ScopeTrace ----------------------------
(* Accepts exactly the recorded executions the property allows.  making: what     *)
(* the constructor of a never-destroyed object is to receive.                     *)
EXTENDS Scope, Json, IOUtils
VARIABLES tid, i, making
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == /\ SInit /\ making = <<>>
         /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
Made(f) == CASE f = "args" -> "own lvalue const" [] f = "copy" -> "copy" [] f = "move" -> "move"
             [] f = "none" -> "none" [] f = "list" -> "list" [] f = "aligned" -> "none"
Step(e) ==
  IF making # <<>>
  THEN CASE e.op = "made" -> making = <<"new", e.k, e.how>> /\ making' = <<"made", e.k>> /\ UNCHANGED svars
         [] e.op = "have" -> making = <<"made", e.k>> /\ e.same /\ making' = <<>> /\ UNCHANGED svars
         [] OTHER -> FALSE
  ELSE /\ IF e.op = "never" THEN making' = <<"new", e.k, Made(e.how)>> ELSE UNCHANGED making
       /\ CASE e.op = "never" -> Act
            [] e.op = "enter" -> Enter(e.kind)
            [] e.op = "defer" -> Defer(e.k, e.sub)
            [] e.op = "act" -> Act
            [] e.op = "exit" -> Exit(e.how, e.n)
            [] e.op = "run" -> (IF todo = <<>> THEN leaving > 0 /\ Run(e.k) ELSE Sub("run", e.k)) /\ e.ok
            [] e.op = "in" -> Sub("in", e.k)
            \* Nothing is left: no scope, no copy of an action.
            [] e.op = "end" -> stack = <<>> /\ e.live = 0 /\ UNCHANGED svars
            [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
