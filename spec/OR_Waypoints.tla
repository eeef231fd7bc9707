---------------------------- MODULE OR_Waypoints ----------------------------
EXTENDS Waypoints, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ lanes' = ToSet(C.lanes) /\ lin' = C.lin /\ frame' = C.frame /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Sample" /\ Assert(WalkAgrees(C.route, C.rate) /\ Covered(C.route, C.rate), C) /\ Sample(C.route, C.rate)
     \/ C.op = "Holds" /\ Holds(C.lane, C.s, C.r, C.h)
     \/ C.op = "HasLane" /\ HasLane(C.lane)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> Cardinality(lanes')])>>)
=============================================================================
