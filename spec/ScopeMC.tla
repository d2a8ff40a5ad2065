------------------------------- MODULE ScopeMC ------------------------------
(* All small programs, each step as it happens: every action runs exactly once    *)
(* when its scope has been left, in the reverse order.  And random long programs. *)
EXTENDS Scope, Json
CONSTANTS MaxStmts, MaxDepth, Emit, SimDepth
VARIABLES prog, log
mvars == <<stack, leaving, todo, prog, log>>
MInit == SInit /\ prog = <<>> /\ log = <<>>
Id == Len(prog) + 1
HasTodo == leaving > 0 \/ todo # <<>>
Stmt(s) == prog' = Append(prog, s)
Hows == {<<"fall", 1>>, <<"break", 0>>, <<"continue", 0>>, <<"return", 0>>, <<"throw", 0>>, <<"goto", 1>>, <<"goto", 2>>, <<"goto", 3>>}
Say(w) == log' = Append(log, w)
StEnter(kind) == Enter(kind) /\ Len(stack) < MaxDepth /\ Stmt(<<"enter", kind>>) /\ UNCHANGED log
StDefer(sub, f) == Defer(Id, IF sub THEN 1000 + Id ELSE 0) /\ Stmt(<<"defer", f, Id, IF sub THEN 1000 + Id ELSE 0>>) /\ Say(<<"d", Id>>)
StAct == Act /\ Stmt(<<"act", Id>>) /\ UNCHANGED log
StNever(f) == Act /\ Stmt(<<"never", f, Id>>) /\ UNCHANGED log
StExit(h) == Exit(h[1], h[2]) /\ Stmt(<<"exit", h[1], Left(h[1], h[2])>>) /\ UNCHANGED log
StRun == \E k \in 1..Len(prog) : Run(k) /\ Say(<<"r", k>>) /\ UNCHANGED prog
StSub == todo # <<>> /\ Sub(todo[1][1], todo[1][2]) /\ UNCHANGED <<prog, log>>
MNext ==
  IF HasTodo THEN StRun \/ StSub
  ELSE /\ stack # <<>>
       /\ IF Len(prog) < MaxStmts
          THEN \/ \E k \in {"block", "loop", "fn", "try"} : StEnter(k)
               \/ \E sub \in BOOLEAN : StDefer(sub, "lambda")
               \/ \E h \in Hows : StExit(h)
          ELSE StExit(<<"fall", 1>>)
MSpec == MInit /\ [][MNext]_mvars
Once == \A k \in 1..Len(prog) : Cardinality({x \in DOMAIN log : log[x] = <<"r", k>>}) <= 1
Deferred == {log[x][2] : x \in {y \in DOMAIN log : log[y][1] = "d"}}
Ran == {log[x][2] : x \in {y \in DOMAIN log : log[y][1] = "r"}}
AllRan == stack = <<>> => Ran = Deferred
\* Actions nest like brackets: of two the one deferred later while the other had not run runs first.
At(w) == CHOOSE x \in DOMAIN log : log[x] = w
Order == \A a, b \in Ran : (At(<<"d", a>>) < At(<<"d", b>>) /\ At(<<"d", b>>) < At(<<"r", a>>))
                              => At(<<"r", b>>) < At(<<"r", a>>)
Waiting == \A x \in DOMAIN stack : \A y \in DOMAIN stack[x].acts : stack[x].acts[y].k \notin Ran
MEmit == (Emit /\ stack = <<>>) => PrintT("@S" \o ToJson(prog))

\* Random programs.
Forms == {"lambda", "moveonly", "lvalue", "function", "pointer", "const", "big"}
NForms == {"args", "copy", "move", "none", "list", "aligned"}
WNext ==
  IF HasTodo THEN StRun \/ StSub
  ELSE /\ stack # <<>>
       /\ IF Len(prog) >= MaxStmts THEN StExit(<<"fall", 1>>)
          ELSE \E n \in {RandomElement(1..10)} :
               CASE n <= 2 -> (IF Len(stack) < MaxDepth THEN \E k \in {RandomElement(Kinds)} : StEnter(k) ELSE StAct)
                 [] n <= 5 -> \E f \in {RandomElement(Forms)} : \E s \in {RandomElement(1..4)} : StDefer(s = 1 /\ f \in {"lambda", "lvalue"}, f)
                 [] n = 6 -> StAct
                 [] n = 7 -> \E f \in {RandomElement(NForms)} : StNever(f)
                 [] OTHER -> (IF Len(stack) = 1 THEN StAct
                             ELSE \E h \in {RandomElement({x \in Hows : Left(x[1], x[2]) \in 1..(Len(stack) - 1)})} : StExit(h))
WEmit == stack = <<>> => PrintT("@S" \o ToJson(prog))
=============================================================================
