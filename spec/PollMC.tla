------------------------------- MODULE PollMC -------------------------------
(* Exploration of Poll.  Conc: posts and polls interleave (checked for the    *)
(* invariants).  Otherwise one thread does everything; every edge is printed  *)
(* for replay.                                                                *)
EXTENDS Poll, Json, TLCExt
CONSTANTS Delays, MaxPosts, MaxClk, MaxN, Conc, Emit, SimDepth
VARIABLES obs, open, hb
mvars == <<vars, obs, open, hb>>
\* open: ids that were in the queue when the running poll began
\* hb: pairs of posts of which one had returned when the other began
MInit == Init /\ obs = [op |-> "init"] /\ open = {} /\ hb = {}

Keep == open' = open /\ hb' = hb
HB == hb' = hb \cup {<<j, Len(it) + 1>> : j \in {x \in DOMAIN it : it[x].ret}}
\* One thread: a post is begin, queue and return at once.
PostAll(d, n) ==
  /\ LET k == Len(it) + 1
         due == Min(clk + d, MaxT)
         m == Cardinality({x \in DOMAIN q : it[q[x]].due <= due})
     IN /\ it' = Append(it, [d |-> d, n |-> n, ap |-> FALSE, lo |-> clk, st |-> "queued",
                             due |-> due, fin |-> 0, ret |-> TRUE])
        /\ q' = SubSeq(q, 1, m) \o <<k>> \o SubSeq(q, m + 1, Len(q))
  /\ HB /\ open' = open
  /\ UNCHANGED <<clk, times, poll, batch, cur>>

SeqNext ==
  \/ \E d \in Delays : Len(it) < MaxPosts /\ PostAll(d, 1) /\ obs' = [op |-> "post", d |-> d]
  \/ clk < MaxClk /\ Advance(clk + 1) /\ Keep /\ obs' = [op |-> "adv", d |-> 1]
  \/ PollBegin /\ open' = {k \in DOMAIN it : it[k].ret} /\ hb' = hb /\ obs' = [op |-> "poll"]
  \/ poll.st = "begun" /\ Take(clk) /\ Keep /\ obs' = [op |-> "take"]
  \/ \E k \in DOMAIN it : Start(k, it[k].fin) /\ Keep /\ obs' = [op |-> "start"]
  \/ \E k \in DOMAIN it : End(k, cur) /\ Keep /\ obs' = [op |-> "end"]
  \/ PollEnd /\ Keep /\ obs' = [op |-> "polled"]
\* The snapshot is part of the poll call: nothing comes in between.
MSeq == IF poll.st = "begun" THEN Take(clk) /\ Keep /\ obs' = [op |-> "take"] ELSE SeqNext

ConcNext ==
  /\ UNCHANGED obs
  /\ \/ \E d \in Delays, n \in 1..MaxN :
          Len(it) < MaxPosts /\ Post(Len(it) + 1, d, n, n > 1) /\ HB /\ open' = open
     \/ \E k \in DOMAIN it : Posted(k) /\ Keep
     \/ clk < MaxClk /\ Advance(clk + 1) /\ Keep
     \/ \E k \in DOMAIN it : \E f \in Since(it[k].lo) : Queue(k, f) /\ Keep
     \/ \E f \in Since(poll.lo) : Take(f) /\ Keep
     \/ PollBegin /\ open' = {k \in DOMAIN it : it[k].st = "queued"} /\ hb' = hb
     \/ \E k \in DOMAIN it : Start(k, it[k].fin) /\ Keep
     \/ \E k \in DOMAIN it : End(k, cur) /\ Keep
     \/ PollEnd /\ Keep
MNext == IF Conc THEN ConcNext ELSE MSeq

MView == <<vars, open, hb>>
MEmit == Emit => PrintT("@E" \o ToJson([s |-> <<TLCFP(vars), TLCFP(<<vars, 1>>)>>, t |-> <<TLCFP(vars'), TLCFP(<<vars', 1>>)>>, op |-> obs',
                                  i |-> (obs.op = "init")]))

\* The guarantees, stated over the history rather than the mechanism.
Once == \A k \in DOMAIN it : it[k].fin <= it[k].n
TakenOnly == \A k \in DOMAIN it : it[k].fin > 0 => it[k].st = "taken"
\* A finished poll has run everything that was in the queue and due when it began.
Complete == [][(poll.st = "taken" /\ poll'.st = "no") =>
                 \A k \in open : it[k].due <= poll.lo => it[k].fin = it[k].n]_vars
\* Within a poll, tasks start in order of due time, then of posting.
Ordered == \A a, b \in DOMAIN batch : a < b =>
              \/ it[batch[a]].due < it[batch[b]].due
              \/ it[batch[a]].due = it[batch[b]].due /\ <<batch[b], batch[a]>> \notin hb
\* Nothing that a poll runs was posted by it.
NotEarly == \A k \in DOMAIN batch : it[batch[k]].due <= clk

SInit == MInit
H(e) == obs' = [op |-> "hist", h |-> IF obs.op = "init" THEN <<e>> ELSE Append(obs.h, e)]
SNext ==
  IF poll.st = "begun" THEN Take(clk) /\ Keep /\ UNCHANGED obs ELSE
  \/ \E d \in {RandomElement(Delays)} : PostAll(d, 1) /\ H([op |-> "post", d |-> d])
  \/ \E d \in {RandomElement(0..4)} : Advance(clk + d) /\ Keep /\ H([op |-> "adv", d |-> d])
  \/ PollBegin /\ Keep /\ H([op |-> "poll"])
  \/ \E k \in DOMAIN it : Start(k, it[k].fin) /\ Keep /\ H([op |-> "start"])
  \/ \E k \in DOMAIN it : End(k, cur) /\ Keep /\ H([op |-> "end"])
  \/ PollEnd /\ Keep /\ H([op |-> "polled"])
SEmit == TLCGet("level") = SimDepth => PrintT("@S" \o ToJson(obs.h))
=============================================================================
