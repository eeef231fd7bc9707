------------------------------ MODULE OR_Routes ------------------------------
EXTENDS Routes, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == Init /\ at = {} /\ phases = <<>> /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ lanes' = ToSet(C.lanes) /\ lin' = C.lin /\ frame' = C.frame /\ at' = ToSet(C.at) /\ phases' = <<>> /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Phase" /\ Phase(C.index, C.netw, C.ph)
     \/ C.op = "SetRoute" /\ SetRoute(C.phases, C.netw)
     \/ C.op = "Within" /\ Within(C.p, C.ranges, C.tol)
     \/ C.op = "PhaseAt" /\ PhaseAt(C.k, C.p)
     \/ C.op = "PhaseAtRoad" /\ PhaseAtRoad(C.k, C.p)
     \/ C.op = "RouteAt" /\ RouteAt(C.p)
     \/ C.op = "RouteAtRoad" /\ RouteAtRoad(C.p)
     \/ C.op = "Relate" /\ Relate(C.a, C.b)
     \/ C.op = "LaneRoute" /\ LaneRoute(C.p)
     \/ C.op = "Validate" /\ Validate
     \/ C.op = "Get" /\ Get(C.k, C.i)
OSpec == OInit /\ [][ONext]_<<rvars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> Cardinality(lanes')])>>)
=============================================================================
