---------------------------- MODULE OR_RoadGraph ----------------------------
EXTENDS RoadGraph, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == at = {} /\ segOf = [n \in {} |-> ""] /\ ends = [n \in {} |-> {}] /\ node = [n \in {} |-> {}] /\ act = [op |-> "new"] /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ /\ C.op = "new" /\ act' = [op |-> "new", res |-> "ok"]
        /\ SetNet(ToSet(C.at), [n \in {x.id : x \in ToSet(C.lanes)} |-> (CHOOSE x \in ToSet(C.lanes) : x.id = n).seg])
     \/ C.op = "FindNode" /\ FindNode(C.lane, C.end)
     \/ C.op = "FindSeqs" /\ FindSeqs(C.a, C.ae, C.b, C.be)
     \/ C.op = "FindStray" /\ FindStray(C.which, C.a, C.ae)
     \/ C.op = "EdgeEnd" /\ EdgeEnd(C.s, C.t)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OObs == IF C.op = "new" THEN Obs' ELSE [nodes |-> {}, edges |-> {}]
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(OObs)>>)
=============================================================================
