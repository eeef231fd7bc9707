------------------------------ MODULE OR_ArcLen ------------------------------
EXTENDS ArcLen, Json, IOUtils, TLC
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
C == Cmds[l]
Skip == UNCHANGED <<cfg, fns, alive, at, kept>> /\ act' = [op |-> "Skip", res |-> "ok"]
Try(A) == IF ENABLED A THEN A ELSE Skip
Act == IF C.op = "Open" THEN Open(C.c, C.how)
       ELSE IF C.op = "Evaluate" THEN Evaluate(C.k, C.n)
       ELSE IF C.op = "EvaluateBroken" THEN EvaluateBroken(C.k, C.n, C.m)
       ELSE IF C.op = "Make" THEN Make(C.s, C.k, C.a, C.b, C.tol)
       ELSE IF C.op = "MakeBroken" THEN MakeBroken(C.s, C.k, C.a, C.b, C.m)
       ELSE IF C.op = "Drop" THEN Drop
       ELSE Call(C.s, C.n, C.side)
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ IF C.op = "new" THEN /\ cfg' = [kind |-> "poly", lo |-> 0, im |-> 0] /\ fns' = [s \in Slots |-> <<>>] /\ alive' = FALSE
                          /\ at' = [k |-> <<0, 0>>, n |-> 0] /\ kept' = 0 /\ act' = [op |-> "new", res |-> "ok"]
     ELSE Try(Act)
OSpec == Init /\ l = 1 /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
