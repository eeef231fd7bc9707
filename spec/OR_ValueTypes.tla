------------------------------ MODULE OR_ValueTypes ------------------------------
EXTENDS ValueTypes, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
C == Cmds[l]
Skip == UNCHANGED <<bnd, pos, ids, ends, val, rules>> /\ act' = [op |-> "Skip", res |-> "ok"]
Try(A) == IF ENABLED A THEN A ELSE Skip
Act == IF C.op = "Bound" THEN Bound(C.w, C.how, C.a, C.b)
       ELSE IF C.op = "Place" THEN Place(C.w, C.how, C.x, C.y, C.z)
       ELSE IF C.op = "Combine" THEN Combine(C.w, C.how, C.n)
       ELSE IF C.op = "Identify" THEN Identify(C.how, C.s)
       ELSE IF C.op = "EndOp" THEN EndOp(C.how, C.l, C.e)
       ELSE IF C.op = "Validator" THEN Validator(C.mode, C.a, C.b, C.t, C.e)
       ELSE IF C.op = "Validate" THEN Validate(C.s)
       ELSE Make(C.k, C.c)
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ IF C.op = "new" THEN /\ bnd' = [r |-> <<0, 0>>, h |-> <<0, 0>>] /\ pos' = [p |-> <<0, 0, 0>>, q |-> <<0, 0, 0>>, l |-> <<0, 0, 0>>]
                          /\ ids' = {} /\ ends' = {} /\ val' = None
                          /\ rules' = [k \in {"sl", "du", "rw", "dv", "rv"} |-> None] /\ act' = [op |-> "new", res |-> "ok"]
     ELSE Try(Act)
OSpec == Init /\ l = 1 /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
