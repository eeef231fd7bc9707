---------------------------- MODULE OR_Providers ----------------------------
EXTENDS Providers, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
Cfg == Cmds[1]
OIds == ToSet(Cfg.ids)
ORwIds == ToSet(Cfg.rwids)
OTypes == ToSet(Cfg.types)
OPoints == ToSet(Cfg.points)
DecRel(r) == [what |-> r.what, k |-> r.k, ids |-> ToSet(r.ids)]
DecVal(v) == [sev |-> v.sev, text |-> v.text, min |-> v.min, max |-> v.max, rel |-> {DecRel(r) : r \in ToSet(v.rel)}]
Vals(e) == DecValues({[i |-> x.i, v |-> DecVal(x.v)] : x \in ToSet(e)})
Dec(e) == DecSeq(ToSet(e))
C == Cmds[l]
OInit == Init /\ l = 1
Skip == UNCHANGED <<rules, st, rw>> /\ act' = [op |-> "skip", res |-> "skip"]
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ rules' = {} /\ st' = {} /\ rw' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "AddRule" /\ IF StatesOk(Vals(C.values)) /\ \A r \in rules : r.id # C.id
                            THEN AddRule(C.kind, C.id, C.type, Dec(C.zone), Vals(C.values))
                            ELSE UNCHANGED <<rules, st, rw>> /\ act' = [op |-> "AddRule", res |-> "throws"]
     \/ C.op = "RemoveRule" /\ IF \E r \in rules : r.id = C.id THEN RemoveRule(C.id)
                               ELSE UNCHANGED <<rules, st, rw>> /\ act' = [op |-> "RemoveRule", res |-> "throws"]
     \/ C.op = "SetState" /\ SetState(C.kind, C.id, DecVal(C.state), {DecVal(v) : v \in ToSet(C.next)}, C.dur)
     \/ C.op = "SetStateZero" /\ SetStateZero(C.kind, C.id, DecVal(C.state), {DecVal(v) : v \in ToSet(C.next)})
     \/ C.op = "RwAdd" /\ RwAdd(C.id, C.state)
     \/ C.op = "RwSet" /\ RwSet(C.id, C.state)
     \/ C.op = "Defaults" /\ Defaults
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
