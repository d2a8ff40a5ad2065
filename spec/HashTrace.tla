------------------------------ MODULE HashTrace -----------------------------
(* Accepts exactly the recorded answers the property allows.  Elements are known   *)
(* by their own hashes.                                                            *)
EXTENDS Hash, Json, IOUtils
VARIABLES tid, i
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
\* Any other lists are told apart, too: by chance they would not be once in 2^64.
\* (The one without elements may have the value of one with a single element.)
Step(e) ==
  CASE e.op = "pair" -> /\ (Len(e.a) = Len(e.b) => Lawful(e.a, e.b, e.va = e.vb))
                        /\ (e.a = e.b => e.va = e.vb)
                        /\ (e.a # e.b /\ e.a # <<>> /\ e.b # <<>> => e.va # e.vb)
                        /\ e.again
                        /\ (Len(e.a) = 1 => e.va = e.a[1])
                        /\ (Len(e.b) = 1 => e.vb = e.b[1])
    \* Many lists, all different.
    [] e.op = "many" -> e.values = e.lists
    [] e.op = "end" -> TRUE
    [] OTHER -> FALSE
TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
