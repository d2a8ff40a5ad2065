------------------------------- MODULE CheckMC ------------------------------
(* All small programs; random long ones.  Nothing runs behind a violated contract, *)
(* in builds with assertions; every condition is evaluated at most once.           *)
EXTENDS Check, Json
CONSTANTS MaxStmts, MaxDepth, Forms, Places, Macros, Vs, Emit
VARIABLES hist, n
mvars == <<open, gone, hist, n>>
MInit == CInit /\ hist = <<>> /\ n = 0
Stmt(m, f, p, v) == [m |-> m, f |-> f, p |-> p, v |-> v, k |-> n + 1]
\* Values of hints: truth values and others.
Truth(m) == IF m \in Hints THEN Vs \cup {"0", "1"} ELSE {"yes", "no"}
New == /\ n < MaxStmts /\ Len(open) < MaxDepth
       /\ \E m \in Macros : \E v \in Truth(m) : \E f \in (IF m \in Hints THEN {"int"} ELSE IF m = "notreached" THEN {"bool"} ELSE Forms) :
          \E p \in (IF m \in Hints THEN {"plain"} ELSE Places) :
            /\ ~(m = "notreached" /\ v = "yes")
            /\ Begin(n + 1, m, v)
            /\ hist' = Append(hist, Stmt(m, f, p, v))
       /\ n' = n + 1
Go == /\ open # <<>>
      /\ \/ Eval(Top.k) /\ UNCHANGED hist
         \/ Value(Top.k) /\ hist' = Append(hist, [m |-> "close"])
         \/ (IF Top.st = "begun" THEN Past(Top.k, Top.v) /\ hist' = Append(hist, [m |-> "close"])
             ELSE Past(Top.k, Top.v) /\ UNCHANGED hist)
         \/ Abort /\ UNCHANGED hist
      /\ UNCHANGED n
MNext == New \/ Go
\* What a statement can do next is never in doubt, but for what its condition executes.
Sure == \A e \in {TRUE} : open # <<>> =>
  LET k == Top.k
      E1 == Top.st = "begun" /\ Looks(Top.m)
      E2 == Top.st = "evaluating"
      E3 == ENABLED Past(k, Top.v)
      E4 == ENABLED Abort
  IN (gone \/ (IF E1 THEN 1 ELSE 0) + (IF E2 THEN 1 ELSE 0) + (IF E3 THEN 1 ELSE 0) + (IF E4 THEN 1 ELSE 0) = 1)
Stops == gone => (Top.m = "check" \/ (Top.m # "check" /\ Checks)) /\ Top.v = "no"
Finished == gone \/ (open = <<>> /\ n = MaxStmts)
MEmit == (Emit /\ Finished) => PrintT("@S" \o ToJson(hist))

\* Random programs: most contracts hold.
WNext == IF open # <<>> /\ ~ENABLED New THEN Go
         ELSE \E r \in {RandomElement(1..10)} :
           IF (r <= 6 \/ open = <<>>) /\ ENABLED New
           THEN \E m \in {RandomElement(Macros)} : \E r2 \in {RandomElement(1..12)} :
                \E v \in {IF m \in Hints THEN RandomElement(Truth(m)) ELSE IF r2 > 1 THEN "yes" ELSE "no"} :
                \E f \in {RandomElement(Forms)} : \E p \in {RandomElement(Places)} :
                LET mm == IF m = "notreached" /\ v = "yes" /\ Checks THEN "check" ELSE m
                    vv == IF mm = "notreached" THEN "no" ELSE v
                IN /\ Begin(n + 1, mm, vv)
                   /\ hist' = Append(hist, Stmt(mm, IF mm \in Hints THEN "int" ELSE f, p, vv)) /\ n' = n + 1
           ELSE Go
WEmit == Finished => PrintT("@S" \o ToJson(hist))
=============================================================================
