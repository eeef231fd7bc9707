---------------------------- MODULE OR_Positions ----------------------------
EXTENDS Positions, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ lanes' = ToSet(C.lanes) /\ lin' = C.lin /\ frame' = C.frame /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "ToRoad" /\ ToRoad(C.p)
     \/ C.op = "ToRoadHint" /\ ToRoadHint(C.p, C.hint)
     \/ C.op = "Find" /\ Find(C.p, C.radius)
     \/ C.op = "Filter" /\ Filter(C.p, ToSet(C.keep), C.d2)
     \/ C.op = "Lane" /\ Lane(C.lane, C.p)
     \/ C.op = "ToInertial" /\ ToInertial(C.lane, C.s, C.r, C.h)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> Cardinality(lanes')])>>)
=============================================================================
