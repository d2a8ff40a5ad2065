----------------------------- MODULE FilesTrace -----------------------------
(* Accepts the recorded executions whose every observation Files.tla allows.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Id
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, fs, held, call
F == INSTANCE Files WITH Enf <- {Id}

TInit == /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
         /\ fs = <<>> /\ held = <<>> /\ call = <<>>
Step(e) ==
  CASE e.op = "init" -> fs' = e.fs /\ held' = e.held /\ UNCHANGED call
    [] e.op = "call" -> F!Call(e.p, e.fn, e.dest, e.data, e.want, e.env)
    [] e.op = "fault" -> F!Fault(e.p, e.at, e.hard)
    [] e.op = "decoy" -> F!Decoy(e.p, e.f, e.fs, e.held)
    [] e.op = "see" -> F!Change(e.p, e.fs, e.held)
    [] e.op = "ret" -> F!Return(e.p, e.ok, e.kind, e.data)
    [] e.op = "kill" -> F!Kill(e.p)
    [] e.op = "end" -> UNCHANGED <<fs, held, call>>
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
