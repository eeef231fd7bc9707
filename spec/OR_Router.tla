------------------------------ MODULE OR_Router ------------------------------
EXTENDS Router, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
C == Cmds[l]
SetNet(c) ==
  /\ lanes' = ToSet(c.lanes) /\ lin' = c.lin /\ frame' = c.frame /\ at' = ToSet(c.at) /\ phases' = <<>>
  /\ segOf' = [n \in {x.id : x \in lanes'} |-> (CHOOSE x \in lanes' : x.id = n).seg]
  /\ ends' = G!BpsAt(at', segOf') /\ node' = G!NodesOf(ends')
OInit == Init /\ at = {} /\ phases = <<>> /\ segOf = <<>> /\ ends = <<>> /\ node = <<>> /\ tol = 0 /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ SetNet(C) /\ tol' = C.tol /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "NewRouter" /\ NewRouter(C.tol)
     \/ C.op = "Compute" /\ Compute(C.a, C.b, C.c)
OSpec == OInit /\ [][ONext]_<<wvars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson([n |-> Cardinality(lanes')])>>)
=============================================================================
