------------------------------ MODULE OR_Boxes ------------------------------
EXTENDS Boxes, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
K == Cmds[l]
Bx(x) == [c |-> x.c, h |-> x.h, o |-> x.o, tol |-> x.tol]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ K.op = "new" /\ a' = Full(Bx(K.a)) /\ b' = Full(Bx(K.b)) /\ act' = [op |-> "new", res |-> "ok"]
     \/ K.op = "Make" /\ Make(K.which, Bx(K.box))
     \/ K.op = "Contains" /\ Contains(K.which, K.p)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
