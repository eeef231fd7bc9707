---------------------------- MODULE OR_Loaders ----------------------------
EXTENDS Loaders, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
OLanes == ToSet(Cmds[1].lanes)
C == Cmds[l]
New == /\ reg' = {} /\ rules' = {} /\ rows' = {} /\ dirs' = {} /\ lights' = {} /\ rings' = {} /\ inters' = {} /\ prov' = {}
       /\ act' = [op |-> "new", res |-> "ok"]
OInit == Init /\ l = 1
ONext == /\ l <= Len(Cmds) /\ l' = l + 1
         /\ IF C.op = "new" THEN New ELSE Load(C.what, C.doc, ToSet(C.pre))
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson([res |-> act'.res]), ToJson(Obs')>>)
=============================================================================
