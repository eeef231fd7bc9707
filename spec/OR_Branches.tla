---------------------------- MODULE OR_Branches ----------------------------
EXTENDS Branches, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ lanes' = ToSet(C.lanes) /\ bps' = ToSet(C.bps) /\ at' = {} /\ defs' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Add" /\ Add(C.bp, C.side, C.lane, C.end)
     \/ C.op = "SetDefault" /\ SetDefault(C.bp, C.lane, C.end, C.to, C.toend)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
