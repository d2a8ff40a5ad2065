------------------------------ MODULE PollTrace -----------------------------
(* Accepts exactly the recorded executions that Poll allows.  The steps that  *)
(* happen inside calls (Queue, Take) are placed by TLC; fl..fh are the values *)
(* of the time function that the call got.                                    *)
EXTENDS Poll, Json, IOUtils
VARIABLES tid, i, fr, ran
Traces == JsonDeserialize(IOEnv.TRACES)

TInit == Init /\ fr = <<>> /\ ran = {} /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)

Visible(e) ==
  CASE e.op = "adv"     -> Advance(e.v)
    [] e.op = "post"    -> Post(e.k, e.d, 1, FALSE)
    \* Many posts with the same due time, one after another, count as one.
    [] e.op = "group"   -> Post(e.k, e.d, e.n, FALSE)
    [] e.op = "apply"   -> Post(e.k, 0, e.n, TRUE)
    [] e.op = "posted"  -> Posted(e.k)
    [] e.op = "poll"    -> PollBegin
    [] e.op = "polled"  -> PollEnd
    [] e.op = "start"   -> e.w = 0 /\ Start(e.k, e.i)
    [] e.op = "end"     -> e.w = 0 /\ End(e.k, e.i)
    [] e.op = "many"    -> Many(e.k, e.i)
    [] e.op = "fin"     -> poll.st = "no" /\ UNCHANGED vars
    [] OTHER            -> FALSE

\* fr: ranges of times by post id; the running poll's at 0.
Ranges(e) == IF e.op \in {"post", "apply", "group"}
             THEN [x \in DOMAIN fr \cup {e.k} |-> IF x = e.k THEN <<e.fl, e.fh>> ELSE fr[x]]
             ELSE IF e.op = "poll" THEN [x \in DOMAIN fr \cup {0} |-> IF x = 0 THEN <<e.fl, e.fh>> ELSE fr[x]]
             ELSE IF e.op = "posted" THEN [x \in DOMAIN fr \ {e.k} |-> fr[x]]
             ELSE fr
In(k) == {f \in times : fr[k][1] <= f /\ f <= fr[k][2]}
\* Queueing is only placed where it makes a difference: right before the call
\* or one with the same due time returns, and right before a poll that runs it
\* takes its tasks (e.ran: what the trace shows the poll run).
Due(k) == {Min(f + it[k].d, MaxT) : f \in In(k)}
Pending == {k \in DOMAIN fr \ {0} : it[k].st = "new"}
QueueNow(e) ==
  (IF e.op = "posted" /\ e.k \in Pending THEN {k \in Pending : Due(k) \cap Due(e.k) # {}} ELSE {})
  \cup (IF poll.st = "begun" /\ e.op \in {"start", "many", "polled", "posted"} THEN Pending \cap ran ELSE {})
TNext == /\ i < Len(Traces[tid])
         /\ UNCHANGED tid
         /\ LET e == Traces[tid][i + 1] IN
            \/ /\ Visible(e) /\ i' = i + 1 /\ fr' = Ranges(e)
               /\ ran' = IF e.op = "poll" THEN {e.ran[x] : x \in DOMAIN e.ran} ELSE ran
            \/ /\ UNCHANGED <<i, fr, ran>>
               /\ \/ \E k \in QueueNow(e) : \E f \in In(k) : Queue(k, f)
                  \/ /\ poll.st = "begun" /\ e.op \in {"start", "many", "polled", "posted"}
                     /\ \E f \in In(0) : Take(f)
                     /\ {batch'[x] : x \in DOMAIN batch'} = ran
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
