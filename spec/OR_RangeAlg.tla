---------------------------- MODULE OR_RangeAlg ----------------------------
EXTENDS RangeAlg, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
Cfg == Cmds[1]
OTols == ToSet(Cfg.tols)
Dec(e) == DecSeq(ToSet(e))
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ pair' = [i \in {1, 2} |-> R("p", 0, 0)] /\ road' = ToSet(C.lanes) /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "SetS0" /\ SetS0(C.i, C.v)
     \/ C.op = "SetS1" /\ SetS1(C.i, C.v)
     \/ C.op = "SetLane" /\ SetLane(C.i, C.lane)
     \/ C.op = "Make" /\ Make(C.i, C.u, C.v)
     \/ C.op = "Routes" /\ Routes(Dec(C.a), Dec(C.b), C.tol)
     \/ C.op = "Included" /\ Included(C.x, C.y, Dec(C.z))
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
