---------------------------- MODULE OR_LaneSeqs ----------------------------
EXTENDS LaneSeqs, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
OInit == at = {} /\ len = [n \in {} |-> 0] /\ act = [op |-> "new"] /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ /\ C.op = "new" /\ at' = ToSet(C.at) /\ act' = [op |-> "new", res |-> "ok"]
        /\ len' = [n \in {x.id : x \in ToSet(C.lanes)} |-> (CHOOSE x \in ToSet(C.lanes) : x.id = n).len]
     \/ C.op = "Find" /\ FindSeqs(C.a, C.b, C.max, C.nou)
     \/ C.op = "Edge" /\ Edge(C.a, C.b)
     \/ C.op = "Derive" /\ Derive(C.a, C.s, C.b, C.t, C.max)
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(0)>>)
=============================================================================
