------------------------------- MODULE OR_Mesh -------------------------------
EXTENDS Mesh, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
K == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ K.op = "new" /\ act' = [op |-> "new", res |-> "ok"]
     \/ K.op = "Simplify" /\ Assert(Sound(K.h, K.cells), K) /\ Simplify(K.h, K.cells, K.rot)
OSpec == OInit /\ [][ONext]_<<act, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(0)>>)
=============================================================================
