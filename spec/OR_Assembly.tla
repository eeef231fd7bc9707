---------------------------- MODULE OR_Assembly ----------------------------
EXTENDS Assembly, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ elems' = ToSet(C.elems) /\ link' = {} /\ dead' = FALSE /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Attach" /\ Attach(C.h, C.p)
     \/ C.op = "AttachNull" /\ AttachNull(C.kind, C.p)
     \/ C.op # "new" /\ dead /\ act' = [op |-> "skip", res |-> "skip"] /\ UNCHANGED <<elems, link, dead>>
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
