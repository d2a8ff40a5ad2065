------------------------------ MODULE ValueTrace ----------------------------
(* Accepts exactly the recorded executions in which JSON values behave like   *)
(* the trees of Value.tla.  e.all: the trees in every slot after the call, as *)
(* read through the public interface.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Tab == JsonDeserialize(IOEnv.TABLE)
Rk(n) == Tab.num[n].rank
I64(n) == Tab.num[n].i64
I32(n) == Tab.num[n].i32
V == INSTANCE Value WITH Rank <- Rk, AsInt64 <- I64, AsInt <- I32

VARIABLES tid, i, sl, pend
None == <<"none", 0, <<>>, <<>>>>

TInit == /\ tid \in DOMAIN Traces /\ i = 0 /\ TLCSet(tid, 0)
         /\ sl = [s \in 1..4 |-> None] /\ pend = <<>>

\* A call that may assert is announced first.
Try(ok) == pend' = <<ok>> /\ UNCHANGED sl
Slot(s, v) == [sl EXCEPT ![s] = v]
Loc(l) == V!At(sl[l.s], l.p)
Ok(l) == l.s \in DOMAIN sl /\ sl[l.s] # None /\ V!Exists(sl[l.s], l.p)
Now(l, v) == [sl EXCEPT ![l.s] = V!Put(@, l.p, v)]
Res(f) == IF f = <<>> THEN None ELSE f[1]
\* Everything is as expected, except that a moved-from place x may hold anything.
Same(want, e) == e.all = want
MovedFrom(want, e, x) ==
  IF sl'[x.s] = None THEN e.all = want
  ELSE e.all = [want EXCEPT ![x.s] = V!Put(@, x.p, V!At(e.all[x.s], x.p))]

Read(e, ok) == ok /\ sl' = sl /\ e.all = sl
Write(e, want) == sl' = want /\ e.all = want

Place(l, x) == IF l.p = <<>> THEN [sl EXCEPT ![l.s] = x] ELSE Now(l, x)
\* src's content goes to dst; what src is left with is not specified.  When src
\* is inside dst it disappears with dst's former content.
MoveTo(e, dst, src) ==
  LET v == Loc(src)
      inside == dst.s = src.s /\ V!Prefix(dst.p, src.p)
      w == Place(dst, v)
  IN /\ Ok(src)
     /\ sl' = e.all
     /\ IF inside THEN e.all = w
        ELSE /\ V!Exists(e.all[src.s], src.p)
             /\ e.all = [w EXCEPT ![src.s] = V!Put(@, src.p, V!At(e.all[src.s], src.p))]

Perform(e) ==
  CASE e.op = "new" -> Write(e, Slot(e.s, e.v))
    [] e.op = "drop" -> Write(e, Slot(e.s, None))
    [] e.op = "setkey" -> /\ Write(e, Now(e.at, V!SetK(Loc(e.at), e.k, e.v)))
                          /\ e.ret = e.v /\ e.same
    [] e.op = "setpath" -> /\ Write(e, Now(e.at, V!SetP(Loc(e.at), e.path, e.v)))
                           /\ e.ret = e.v /\ e.same
    [] e.op = "remkey" -> /\ Write(e, Now(e.at, V!RemK(Loc(e.at), e.k)))
                          /\ e.ret = V!HasKey(Loc(e.at), e.k)
    [] e.op = "findkey" -> Read(e, e.ret = Res(V!FindK(Loc(e.at), e.k)))
    [] e.op = "findpath" -> Read(e, e.ret = Res(V!FindP(Loc(e.at), e.path)))
    [] e.op = "findtype" -> Read(e, e.ret = Res(V!FindKT(Loc(e.at), e.k, e.t)))
    [] e.op = "findnum" ->     \* FindInt64Key / FindIntKey
         LET f == V!FindK(Loc(e.at), e.k)
         IN Read(e, e.ret = IF f # <<>> /\ V!Can(f[1], e.t) THEN V!Got(f[1], e.t) ELSE "")
    [] e.op = "setfound" ->    \* through the pointer that a lookup returned
         LET f == V!FindP(Loc(e.at), e.path)
         IN /\ e.ret = (f # <<>>)
            /\ Write(e, IF f # <<>> THEN Now(e.at, V!SetP(Loc(e.at), e.path, e.v)) ELSE sl)
    [] e.op = "move" -> MoveTo(e, [s |-> e.s, p |-> <<>>], e.from)     \* move construction
    [] e.op = "assign" -> Ok(e.to) /\ MoveTo(e, e.to, e.from)
    [] e.op = "swap" -> /\ Ok(e.to) /\ Ok(e.from)
                        /\ LET a == Loc(e.to)  b == Loc(e.from)
                               w == Now(e.to, b)
                           IN Write(e, [w EXCEPT ![e.from.s] = V!Put(@, e.from.p, a)])
    [] e.op = "clone" -> Write(e, Slot(e.s, Loc(e.from)))
    [] e.op = "push" -> LET a == Loc(e.at)
                        IN Write(e, Now(e.at, <<"arr", 0, <<>>, Append(a[4], e.v)>>))
    [] e.op = "pop" -> LET a == Loc(e.at)
                       IN Write(e, Now(e.at, <<"arr", 0, <<>>, V!Without(a[4], e.x)>>))
    [] e.op = "insert" -> LET a == Loc(e.at)
                          IN Write(e, Now(e.at, <<"arr", 0, <<>>, SubSeq(a[4], 1, e.x - 1) \o <<e.v>>
                                                                \o SubSeq(a[4], e.x, Len(a[4]))>>))
    [] e.op = "sort" -> LET a == Loc(e.at)
                            b == V!At(e.all[e.at.s], e.at.p)
                            N == Len(a[4])
                            Cnt(s, x) == Cardinality({y \in DOMAIN s : s[y] = x})
                        IN /\ sl' = e.all /\ Len(b[4]) = N
                           /\ \A x \in 1..N - 1 : V!Cmp(b[4][x], b[4][x + 1]) <= 0
                           /\ \A x \in 1..N : Cnt(a[4], a[4][x]) = Cnt(b[4], a[4][x])
                           /\ e.all = Now(e.at, <<"arr", 0, <<>>, b[4]>>)
    [] e.op = "cmp" -> Read(e, e.ret = V!Six(Loc(e.a), Loc(e.b)))
    [] e.op = "cmplit" -> Read(e, e.ret = V!Six(e.v, e.w))
    [] e.op = "preds" -> Read(e, e.ret = V!Preds(Loc(e.at)))
    [] e.op = "predlit" -> Read(e, e.ret = V!Preds(e.v))
    [] e.op = "get" -> Read(e, V!Can(Loc(e.at), e.t)
                               /\ e.ret = IF e.t \in V!Numeric THEN V!Got(Loc(e.at), e.t) ELSE "")
    [] e.op = "made" -> Read(e, TRUE)
    [] OTHER -> FALSE

Step(e) ==
  CASE e.op = "try" ->
         /\ pend = <<>>
         /\ Try(CASE e.what = "get" -> V!Can(Loc(e.at), e.t)
                  [] e.what = "obj" -> V!IsObj(Loc(e.at))
                  [] e.what = "int" -> Tab.int[e.n]
                  [] e.what = "dbl" -> Tab.dbl[e.n])
    [] e.op = "abort" -> pend = <<FALSE>> /\ UNCHANGED <<sl, pend>>
    [] e.op \in {"crash", "hang"} -> FALSE
    [] OTHER -> pend # <<FALSE>> /\ pend' = <<>> /\ Perform(e)

TNext == /\ i < Len(Traces[tid])
         /\ Step(Traces[tid][i + 1])
         /\ i' = i + 1 /\ UNCHANGED tid
TRec == IF i > TLCGet(tid) THEN TLCSet(tid, i) ELSE TRUE
TPost == /\ \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t]) \/ PrintT(<<"REJECT", t, TLCGet(t)>>)
         /\ PrintT("POSTDONE")
=============================================================================
