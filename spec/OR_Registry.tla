---------------------------- MODULE OR_Registry ----------------------------
EXTENDS Registry, Json, IOUtils
Cmds == ndJsonDeserialize(IOEnv.CMDS)
VARIABLE l
ToSet(s) == {s[i] : i \in DOMAIN s}
OTypes == ToSet(Cmds[1].types)
DecRel(r) == [what |-> r.what, k |-> r.k, ids |-> ToSet(r.ids)]
DecVal(v) == [sev |-> v.sev, text |-> v.text, min |-> v.min, max |-> v.max, rel |-> {DecRel(r) : r \in ToSet(v.rel)}]
Vals(e) == DecValues({[i |-> x.i, v |-> DecVal(x.v)] : x \in ToSet(e)})
Dec(e) == DecSeq(ToSet(e))
C == Cmds[l]
OInit == Init /\ l = 1
ONext ==
  /\ l <= Len(Cmds) /\ l' = l + 1
  /\ \/ C.op = "new" /\ reg' = {} /\ act' = [op |-> "new", res |-> "ok"]
     \/ C.op = "Register" /\ Register(C.kind, C.type, Vals(C.values))
     \/ C.op = "RegisterBuiltin" /\ RegisterBuiltin(C.name)
     \/ C.op = "Build" /\ Build(C.kind, C.id, C.type, Dec(C.zone), Vals(C.values))
     \/ C.op = "Make" /\ Make(C.kind, C.id, C.type, Dec(C.zone), Vals(C.values))
OSpec == OInit /\ [][ONext]_<<vars, l>>
OEmit == PrintT(<<"T", ToJson(l), ToJson(act'), ToJson(Obs')>>)
=============================================================================
