------------------------------ MODULE OR_Scene ------------------------------
EXTENDS Scene, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
K == Cmds[l]
F(f) == [f EXCEPT !.marked = ToSet(f.marked)]
OInit == SInit /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ K.op = "new" /\ lanes' = ToSet(K.lanes) /\ lin' = 0 /\ frame' = K.frame /\ at' = K.at /\ act' = [op |-> "new", res |-> "ok"]
     \/ K.op = "Draw" /\ Draw(F(K.f))
     \/ K.op = "Write" /\ Write(F(K.f), K.o)
     \/ K.op = "Parts" /\ Parts(F(K.f))
     \/ K.op = "One" /\ One(K.kind, K.id, K.what, F(K.f))
     \/ K.op = "Arrows" /\ Arrows(K.lane, F(K.f))
OSpec == OInit /\ [][ONext]_<<svars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> Cardinality(lanes')])>>)
=============================================================================
