---------------------------- MODULE OR_Rulebook ----------------------------
(* The specification as oracle: takes the commands of a file and emits the result and observation of each step. *)
EXTENDS Rulebook, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ovars == <<rules, act, l>>
Cfg == Cmds[1]
ToSet(s) == {s[i] : i \in DOMAIN s}
OIds == ToSet(Cfg.ids)
OTypes == ToSet(Cfg.types)
Dec(e) == DecSeq(ToSet(e))
OQueries == [i \in DOMAIN Cfg.queries |-> [ranges |-> Dec(Cfg.queries[i].ranges), tol |-> Cfg.queries[i].tol]]
OInit == Init /\ l = 1
C == Cmds[l]
ONext ==
  /\ l <= Len(Cmds)
  /\ l' = l + 1
  /\ \/ C.op = "new" /\ rules' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Add" /\ Add(C.kind, C.id, C.type, Dec(C.zone))
     \/ C.op = "Remove" /\ Remove(C.kind, C.id)
     \/ C.op = "RemoveAll" /\ RemoveAll
     \/ C.op = "Find" /\ FindRules(Dec(C.ranges), C.tol)
OSpec == OInit /\ [][ONext]_ovars
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
