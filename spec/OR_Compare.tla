------------------------------ MODULE OR_Compare ------------------------------
EXTENDS Compare, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
C == Cmds[l]
ToS(s) == {s[n] : n \in DOMAIN s}
OInit == act = [op |-> "none"] /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ IF C.op = "new" THEN act' = [op |-> "new", res |-> "ok"]
     ELSE IF C.op = "Equal" THEN DoEqual(C.kind, C.a, C.b)
     ELSE IF C.op = "Close" THEN DoClose(C.kind, C.a, C.b, C.tol)
     ELSE IF C.op = "Array" THEN DoArray(C.a, C.b, C.tol, C.relative)
     ELSE IF C.op = "Collect" THEN DoCollect(C.fails)
     ELSE IF C.op = "Keys" THEN DoKeys(C.kind, C.vs)
     ELSE DoIndex(ToS(C.faults))
OSpec == OInit /\ [][ONext]_<<act, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> 0])>>)
=============================================================================
