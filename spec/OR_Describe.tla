----------------------------- MODULE OR_Describe -------------------------------
EXTENDS Describe, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
C == Cmds[l]
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ IF C.op = "new" THEN net' = C.net /\ act' = [op |-> "new", res |-> "ok"]
     ELSE IF C.op = "Network" THEN Network(C.o)
     ELSE IF C.op = "Dot" THEN Dot(C.edges, C.route)
     ELSE IF C.op = "Fixed" THEN Fixed(C.n, C.k, C.p)
     ELSE IF C.op = "Say" THEN Say(C.kind, C.v)
     ELSE IF C.op = "Matrix" THEN Matrix(C.n, C.v)
     ELSE Names(C.type)
OSpec == net = <<>> /\ act = [op |-> "none"] /\ l = 1 /\ [][ONext]_<<vars, l>>
Obs == [n |-> 0]
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
ASSUME Distinct
=============================================================================
